From c37ccb6efeb19514af96a89d6205b6e7122eebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 01/28] fix: respect orderings that put a method's second
 subtask first in the symbolic planner

---
 src/symbolic_search/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 8b80a59..9e82524 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1196,7 +1196,7 @@ void build_automaton(Model * htn){
 		int first = htn->subTasks[method][0];
 		int second = htn->subTasks[method][1];
 		assert(htn->numOrderings[method] == 2);
-		if (htn->ordering[method][0] == 1 && htn->ordering[method][1])
+		if (htn->ordering[method][0] == 1 && htn->ordering[method][1] == 0)
 			std::swap(first,second);
 
 		tasks_per_method[method] = {first, second};
-- 
2.43.0


From 76a7d5b733fbb3d1a79fed353622015a19792361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 02/28] fix: guard missing epsilon layer when the symbolic
 planner extracts a plan

---
 src/symbolic_search/automaton.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 9e82524..3f84f6c 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -885,7 +885,8 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 		// and in v' the state in which the base task was pushed
 		BDD edgeBDD = eps[toVertex][cost][depth];
 		auto [pCost, pDepth] = prev(cost, depth);
-		edgeBDD = edgeBDD * !eps[toVertex][pCost][pDepth]; // only the new epsilon states are interesting
+		if (eps[toVertex][pCost].count(pDepth)) // costs without a layer have no epsilon states
+			edgeBDD = edgeBDD * !eps[toVertex][pCost][pDepth]; // only the new epsilon states are interesting
 		// and of the new ones only the ones that will lead to the current stack head
 		edgeBDD *= stateStack.front(); // this has now v (current state) v' (stack push state) v'' (stack continuation)
 		DEBUG(pc(mc); std::cout << "\t\t\tEdgeBDD is " << cost << " " << depth << " / " << pCost << " " << pDepth << std::endl);
-- 
2.43.0


From 9bfeae84a64aff95922123a440c1bd1b245f3b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 03/28] fix: trace back to the right cost layer in the symbolic
 planner

---
 src/symbolic_search/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 3f84f6c..dadb76b 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1283,7 +1283,7 @@ void build_automaton(Model * htn){
 			for(tracingInfo & info : entry.second){
 				//int sourceCost = get<0>(info) + get<7>(info);
 				int sourceCost = get<0>(info);
-				if (get<7>(info) != get<5>(info)) sourceCost += get<7>(info);
+				if (get<7>(info) > 0) sourceCost += get<7>(info);
 				if (handledCosts.count(sourceCost)) continue;
 				handledCosts.insert(sourceCost);
 
-- 
2.43.0


From 8d4d18ad21833dbe23479323412ed1946f3a6771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 04/28] fix: pick the next cost layer among primitive and
 abstract entries in the symbolic planner

---
 src/symbolic_search/automaton.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index dadb76b..f2248a9 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1725,13 +1725,17 @@ void build_automaton(Model * htn){
 		
 		if (next_abstract_layer == abst_q[currentCost].end()){
 			// transition to primitive layer
-			auto findIt = prim_q.find(currentCost);
-			findIt++;
-			if (findIt == prim_q.end() && ++abst_q.find(currentCost) == abst_q.end()){
+			// the next cost may have primitive entries, abstract entries or both
+			auto nextPrim = prim_q.upper_bound(currentCost);
+			auto nextAbst = abst_q.upper_bound(currentCost);
+			if (nextPrim == prim_q.end() && nextAbst == abst_q.end()){
 				std::cout << color(RED,"Problem is unsolvable") << std::endl;
 				exit(0);
 			}
-			currentCost = findIt->first;
+			if (nextPrim == prim_q.end() || (nextAbst != abst_q.end() && nextAbst->first < nextPrim->first))
+				currentCost = nextAbst->first;
+			else
+				currentCost = nextPrim->first;
 			currentDepthInAbstract = 0; // the primitive layer
 			current_queue = prim_q[currentCost];
 			std::cout << color(CYAN,"==========================") << " Cost Layer " << currentCost << std::endl; 
-- 
2.43.0


From 2f9b1cc96931af4cd35d112fdf362ded838e3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 05/28] fix: keep the pairs chosen so far when matching two
 task networks for isomorphism

---
 src/VisitedList.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 8c22c10..102f08f 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -156,7 +156,7 @@ void to_dfs(planStep *s, vector<int> &seq) {
 
 
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping);
+                 map<planStep *, planStep *> &mapping, map<planStep *, planStep *> &backmapping);
 
 
 void getSortedTasks(planStep **network, int size, int *succ);
@@ -210,8 +210,12 @@ bool matchingGenerate(
             subOtherNextTasks[task].erase(psOther);
 
             // continue the extraction with the next task
-            if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks))
+            if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks)) {
+                // the rest of the matching must respect the pairs chosen here
+                mapping = subMapping;
+                backmapping = subBackmapping;
                 return true;
+            }
         }
     }
 
@@ -219,7 +223,7 @@ bool matchingGenerate(
 }
 
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping) {
+                 map<planStep *, planStep *> &mapping, map<planStep *, planStep *> &backmapping) {
 	if (oneStep->numSuccessors != otherStep->numSuccessors) return false; // is not possible
     if (oneStep->numSuccessors == 0) return true; // no successors, matching OK
 
-- 
2.43.0


From 2a9f58dc3ee81be930f3b6004082e8e3b8098e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 06/28] fix: recognise parallel sequences only if every method
 but the top one is totally ordered

---
 src/Model.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 0782e92..029be55 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -3066,11 +3066,10 @@ newlyReachedMLMs = new noDelIntSet();
 
 			if (notOneSuccessor > 1 || notOnePredecessor > 1) {
 				isTotallyOrdered = false;
-				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask) {
+				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask)
 					isUniquePaths = false;
-					if (notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
-						isParallelSequences = false;
-				}
+				if (notZeroOrOneSuccessor || notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
+					isParallelSequences = false;
 			}
 		}
 
-- 
2.43.0


From 789ee3d5a977b96cb86c5cc83f3850cca96339f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 07/28] fix: do not compare unset f-values when search nodes
 are never reopened

---
 src/VisitedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 102f08f..f8cedcc 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -572,7 +572,7 @@ bool VisitedList::insertVisi(searchNode *n) {
 			//cout << endl << endl << "Comp " << result << endl;
 			//other->printNode(cout);
 			if (result) {
-				if (other->fValue > n->fValue){
+				if (!noReopening && other->fValue > n->fValue){ // the f-value of n is only known if nodes may be reopened
 					toRemove = other;
 					continue;
 				}
-- 
2.43.0


From 6cf6200f8fbca9d55d26cb0df3e1736fba6822ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 08/28] fix: reject integer lists that end before their
 terminator instead of reading forever

---
 src/Model.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 029be55..977a0d7 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2107,7 +2107,7 @@ newlyReachedMLMs = new noDelIntSet();
 		sStream >> x;
 		while (x >= 0) {
 			vector<int> c;
-			for (int i = 0; i < x; i++) {
+			for (int i = 0; i < x && sStream; i++) {
 				int y;
 				sStream >> y;
 				c.push_back(y);
@@ -2115,6 +2115,10 @@ newlyReachedMLMs = new noDelIntSet();
 
 			// read the actual unguarded element
 			sStream >> x;
+			if (!sStream) {
+				cerr << "Unexpected end of a list of effects in the input." << endl;
+				exit(-1);
+			}
 
 			if (!c.size())
 				v.push_back(x);
@@ -2155,6 +2159,10 @@ newlyReachedMLMs = new noDelIntSet();
 		int x;
 		sStream >> x;
 		while (x != -1) {
+			if (!sStream) {
+				cerr << "Unexpected end of a list of integers in the input." << endl;
+				exit(-1);
+			}
 			if (x < 0) x++; // convert back to -i-1 instead of -i-2
 			v.push_back(x);
 			sStream >> x;
-- 
2.43.0


From 696f51506d910dc5020d01e7ecbc25d6cccd3267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 09/28] fix: SAT planner keeps actions without effects after
 the effects they are ordered behind

---
 src/sat/partial_order.cpp | 4 ++++
 src/sat/state_formula.cpp | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sat/partial_order.cpp b/src/sat/partial_order.cpp
index 5d52986..07062d1 100644
--- a/src/sat/partial_order.cpp
+++ b/src/sat/partial_order.cpp
@@ -157,6 +157,10 @@ void generate_matching_formula(void* solver, sat_capsule & capsule, Model * htn,
 			for (int p = 1; p < vars.size(); p++){
 				implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p-1]);
 			}
+			// if l may change the state, its successors may not be executed in the state before it
+			if (leafSOG->leafContainsEffectAction[l])
+				for (int p = 0; p < vars.size(); p++)
+					implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p]);
 		}
 	}
 
diff --git a/src/sat/state_formula.cpp b/src/sat/state_formula.cpp
index 955d8f5..dfb536e 100644
--- a/src/sat/state_formula.cpp
+++ b/src/sat/state_formula.cpp
@@ -275,8 +275,8 @@ void get_partial_state_atoms(sat_capsule & capsule, Model * htn, SOG* sog, vecto
 		sog->leafContainsEffectAction[t] = actualAction;
 	}
 	int numberOfTimeSteps = sog->numberOfVertices - leafsWithoutActualActions;
-	numberOfTimeSteps = numberOfTimeSteps;
-	if (numberOfTimeSteps == 0) numberOfTimeSteps = 1;
+	// actions without effects are executed in the state before their time step, the ones after the last effect need a further time step
+	if (leafsWithoutActualActions > 0 || numberOfTimeSteps == 0) numberOfTimeSteps++;
 	
 	cout << "Total Leafs: " << sog->numberOfVertices << " of that without effect-actions " << leafsWithoutActualActions << " remaining: " << numberOfTimeSteps << endl;
 
-- 
2.43.0


From 9b875bca5e9bf8e4dbf9b286349c6caa13b408ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 10/28] fix: SAT planner prints the actions of one time step in
 an order the methods allow

---
 src/sat/sat_planner.cpp | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index ee86171..c878f6c 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -97,21 +97,36 @@ pair<int,int> printSolution(void * solver, Model * htn, PDT* pdt, MatchingData &
 	// if po output the primitive plan now
 	if (!htn->isTotallyOrdered){
 		for (int p = 0; p < matching.matchingPerPosition.size(); p++){
-			for (auto [pvar, prim] : matching.vars[p]){
-				if (ipasir_val(solver,pvar) > 0){
-					// find the if of the matched leaf
-					for (int l = 0; l < matching.matchingPerPosition[p].size(); l++){
+			// find the leafs matched to this position
+			vector<int> matchedLeafs;
+			for (auto [pvar, prim] : matching.vars[p])
+				if (ipasir_val(solver,pvar) > 0)
+					for (int l = 0; l < matching.matchingPerPosition[p].size(); l++)
 						if (ipasir_val(solver,matching.matchingPerPosition[p][l]) > 0
-								&& matching.leafSOG->leafOfNode[l]->outputTask == prim){
-							// get the output number of that leaf
-							PDT * leaf = matching.leafSOG->leafOfNode[l];
-							solutionCost += htn->actionCosts[prim];
-							trueSolutionCost += originalActionCosts[prim];
-							leafsWithTask.push_back({leaf,l});
-							std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
-						}
-					}
+								&& matching.leafSOG->leafOfNode[l]->outputTask == prim)
+							matchedLeafs.push_back(l);
+
+			// leafs without effects come before the one with effects, and every leaf after its predecessors
+			while (matchedLeafs.size()){
+				size_t next = matchedLeafs.size();
+				for (size_t i = 0; i < matchedLeafs.size(); i++){
+					bool isFirst = true;
+					for (int other : matchedLeafs)
+						if (other != matchedLeafs[i] && matching.leafSOG->successorSet[other].count(matchedLeafs[i]))
+							isFirst = false;
+					if (!isFirst) continue;
+					if (next == matchedLeafs.size() || !matching.leafSOG->leafContainsEffectAction[matchedLeafs[i]])
+						next = i;
 				}
+				int l = matchedLeafs[next];
+				matchedLeafs.erase(matchedLeafs.begin() + next);
+
+				// get the output number of that leaf
+				PDT * leaf = matching.leafSOG->leafOfNode[l];
+				solutionCost += htn->actionCosts[leaf->outputTask];
+				trueSolutionCost += originalActionCosts[leaf->outputTask];
+				leafsWithTask.push_back({leaf,l});
+				std::cout << leaf->outputID << " " << htn->taskNames[leaf->outputTask] << endl;
 			}
 		}
 	}
-- 
2.43.0


From 2192a593982cca1caf30c823b0ae38c8a20b98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 11/28] fix: prepare the action vectors for h2 pruning when SAT
 mutexes are disabled

---
 src/SearchEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SearchEngine.cpp b/src/SearchEngine.cpp
index ccb04b8..72d0279 100644
--- a/src/SearchEngine.cpp
+++ b/src/SearchEngine.cpp
@@ -229,7 +229,7 @@ int main(int argc, char *argv[]) {
 	bool trackContainedTasks = useTaskHash;
     Model* htn = new Model(trackContainedTasks, reachability, true, true);
 	htn->filename = inputFilename;
-	if (args_info.satmutexes_flag) htn->rintanenInvariants = true;
+	if (args_info.satmutexes_flag || string(args_info.pruning_arg) == "h2") htn->rintanenInvariants = true;
 	htn->read(inputStream);
 	assert(htn->isHtnModel);
 	searchNode* tnI = htn->prepareTNi(htn);
-- 
2.43.0


From 8d3e95fb26b525d953534983b7104f5603f44beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 12/28] fix: translate initial facts of every state variable,
 not only the first ones

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index f0833df..e109800 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -174,7 +174,7 @@ void HTNToSASTranslation::sasPlus(){
   for (int i = 0; i < htn->s0Size; i++){
     int j = 0;
     while (true){
-      if (j >= htn->s0Size || htn->firstIndex[j] > htn->s0List[i]){
+      if (j >= htn->numVars || htn->firstIndex[j] > htn->s0List[i]){
         j--;
         break;
       }
-- 
2.43.0


From 57450cde8faa3bd1167f0933b6bc8c1fab437ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 13/28] fix: drop delete effects on facts the same action adds,
 so that all planners let the addition win

---
 src/Model.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Model.cpp b/src/Model.cpp
index 977a0d7..cc187c1 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1653,6 +1653,13 @@ newlyReachedMLMs = new noDelIntSet();
 			conditionalDelLists[i] = get<1>(dels);
 			conditionalDelListsCondition[i] = get<2>(dels);
 
+			// adding a fact wins over deleting it, so such a delete effect does nothing
+			int keptDels = 0;
+			for (int j = 0; j < numDels[i]; j++)
+				if (std::find(addLists[i], addLists[i] + numAdds[i], delLists[i][j]) == addLists[i] + numAdds[i])
+					delLists[i][keptDels++] = delLists[i][j];
+			numDels[i] = keptDels;
+
 #ifndef NDEBUG
 			for (int j = 0; j < numPrecs[i]; j++) {
 				assert(precLists[i][j] < numStateBits);
-- 
2.43.0


From fffff9385c3c57e89cb68b3c2fcddf2b8cca5a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 14/28] fix: generate the conditional effects encoding when it
 is selected

---
 src/translation/translationController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index aa36173..7ae578e 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -39,7 +39,7 @@ bool performOneTranslation(HTNToSASTranslation * translation, TranslationType tr
 		operators = translation->htnToStrips(pgbList[0]);
 	} else if (transtype == BaseCondEffects){
 		cout << endl << "Generating with Basic PO ADL/Conditional effects encoding" << endl;
-		operators = translation->htnToCondSorted(pgbList[0]);
+		operators = translation->htnToCond(pgbList[0]);
 	} else {
 		// impossible to reach
 		assert(false);
-- 
2.43.0


From 9b00d56fd6716f5ea1c0b8377d3d282c7f996ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 15/28] fix: translation numbers the subtasks of a method by
 their place in its order

---
 src/translation/htnToSAS.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index e109800..5691a2e 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -345,7 +345,6 @@ void HTNToSASTranslation::reorderTasks(bool warning){
             }
             if (htn->ordering[i][2 * l] == subs[m]){
               alreadyUsed = true;
-              break;
             }
           }
           if (ka){
@@ -369,15 +368,21 @@ void HTNToSASTranslation::reorderTasks(bool warning){
     }
 
     // reordering tasks and adjusting restrictions
+    // subs lists the tasks from first to last, the new numbering from last to first
+    int* newIndex = new int[htn->numSubTasks[i]];
+    for (int j = 0; j < htn->numSubTasks[i]; j++){
+      newIndex[subs[j]] = htn->numSubTasks[i] - 1 - j;
+    }
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      subTasksInOrder[i][j] = htn->subTasks[i][htn->numSubTasks[i] - 1 - subs[j]];
+      subTasksInOrder[i][newIndex[j]] = htn->subTasks[i][j];
     }
     for (int j = 0; j < htn->numOrderings[i]; j++){
-      htn->ordering[i][j] = htn->numSubTasks[i] - 1 - subs[htn->ordering[i][j]];
+      htn->ordering[i][j] = newIndex[htn->ordering[i][j]];
     }
+    delete[] newIndex;
     // evaluating number of primitive tasks in front
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      if (htn->isPrimitive[htn->subTasks[i][j]]){
+      if (htn->isPrimitive[subTasksInOrder[i][htn->numSubTasks[i] - 1 - j]]){
         firstNumTOPrimTasks[i]++;
       }
       else {
-- 
2.43.0


From f977a8268d681cf6175cb12a709be87e6f7fd018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 16/28] fix: translation looks for a method's last task at the
 end of the order, not the start

---
 src/translation/htnToSAS.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 5691a2e..72a42be 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -397,14 +397,14 @@ void HTNToSASTranslation::reorderTasks(bool warning){
     }
     else {
       bool* lower = new bool[htn->numSubTasks[i]];
-      for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
+      for (int j = 1; j < htn->numSubTasks[i]; j++){
         lower[j] = false;
       }
-      lower[htn->numSubTasks[i] - 1] = true;
+      lower[0] = true;
       for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
         for (int k = 0; k < htn->numOrderings[i] / 2; k++){
-          if (lower[htn->ordering[i][2 * k]]){
-            lower[htn->ordering[i][2 * k + 1]] = true;
+          if (lower[htn->ordering[i][2 * k + 1]]){
+            lower[htn->ordering[i][2 * k]] = true;
           }
         }
       }
-- 
2.43.0


From d646cbde496ae9490171f6fc8c58dd84dd90be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 17/28] fix: write the conditional effects of the conditional
 effects encoding and index its constraints consistently

---
 src/translation/htnToSAS.cpp              | 17 ++++++++++++++++-
 src/translation/translationController.cpp |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 72a42be..2566c4b 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2133,8 +2133,20 @@ int HTNToSASTranslation::htnToCond(int pgb) {
             addListsTrans[index][l + htn->numSubTasks[i]] = firstIndexTrans[firstStackIndex + subs[l]] + 1;
             
             for (int m = 0; m < pgb - 1; m++){
+              int constrained = m;
+              if (m >= j){
+                constrained++;
+              }
+              // the constraints of a task leave out the task itself, a task never constrains itself
+              int inherited = firstConstraintIndex + j * (pgb - 1) + m;
+              if (constrained > subs[l]){
+                inherited = firstConstraintIndex + subs[l] * (pgb - 1) + constrained - 1;
+              }
+              else if (constrained < subs[l]){
+                inherited = firstConstraintIndex + subs[l] * (pgb - 1) + constrained;
+              }
               effectConditionsTrans[index][l * (pgb - 1) + m][0] = firstIndexTrans[firstConstraintIndex + j * (pgb - 1) + m] + 1;
-              effectsTrans[index][l * (pgb - 1) + m] = firstIndexTrans[firstConstraintIndex + subs[l] * (pgb - 1) + m] + 1;
+              effectsTrans[index][l * (pgb - 1) + m] = firstIndexTrans[inherited] + 1;
             }
           }
           for (int l = 0; l < htn->numOrderings[i] / 2; l++){
@@ -2152,6 +2164,9 @@ int HTNToSASTranslation::htnToCond(int pgb) {
             else {
               second = subs[second];
             }
+            if (second > first){
+              second--;
+            }
             effectConditionsTrans[index][(pgb - 1) * (htn->numSubTasks[i] - 1) + l][0] = firstIndexTrans[firstConstraintIndex + first * (pgb - 1) + second];
             effectsTrans[index][(pgb - 1) * (htn->numSubTasks[i] - 1) + l] = firstIndexTrans[firstConstraintIndex + first * (pgb - 1) + second] + 1;
           }
diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index 7ae578e..39f2ec1 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -69,7 +69,7 @@ void printSASToFile(HTNToSASTranslation * translation, TranslationType transtype
     gettimeofday(&tp, NULL);
     startT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << "Printing HTN model to file \"" << sasfile << "\" ... ";
-    translation->writeToFastDown(sasfile, transtype == Push, realCosts);
+    translation->writeToFastDown(sasfile, transtype == Push || transtype == BaseCondEffects, realCosts);
     gettimeofday(&tp, NULL);
     currentT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << " (" << (currentT - startT) << " ms)" << endl;
-- 
2.43.0


From 85ff6a92a024e21b3873cf0ca608b4b0b83becde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:49 +0000
Subject: [PATCH 18/28] fix: empty tasks of the STRIPS translation cost nothing

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 2566c4b..fab1f5a 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2367,7 +2367,7 @@ void HTNToSASTranslation::writeToFastDown(string sasName, bool hasCondEff, bool
         }
         sasfile << cost << " " << var0 << " " << preco << " " << var1 << endl;
       }
-      sasfile << this->actionCostsTrans[i] << endl;
+      sasfile << 0 << endl;
       sasfile << "end_operator" << endl;
       for (int j = 0; j < numP; j++){
         delete[] precs[j];
-- 
2.43.0


From 801ee377d338b4f97f5f769dc1e280d94ee12174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:54 +0000
Subject: [PATCH 19/28] fix: HDDL export drops orderings whose second task is a
 left out no-op

---
 src/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index cc187c1..6bc2b45 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2905,7 +2905,7 @@ newlyReachedMLMs = new noDelIntSet();
 					int j = 0;
 					bool firstOrdering = true;
 					while (j < this->numOrderings[i]) {
-						if (this->ordering[i][j] == possibleMethodPrecondition || noopIDs.count(this->ordering[i][j]) || noopIDs.count(this->ordering[i][j] + 1) ) {
+						if (this->ordering[i][j] == possibleMethodPrecondition || noopIDs.count(this->ordering[i][j]) || noopIDs.count(this->ordering[i][j + 1]) ) {
 							j+=2;
 							continue;
 						}
-- 
2.43.0


From 2fe03ea57df57cd451d81a10e7942abb532be480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 20/28] fix: stop after generating the translation when only
 that was asked for

---
 src/translation/translationController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index 39f2ec1..810cf7e 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -220,7 +220,7 @@ void runTranslationPlanner(Model* htn, TranslationType transtype, bool forceTran
 		// what to do
 		performOneTranslation(translation, transtype, parallel, pgbList);
 		printSASToFile(translation, transtype, sasfile, realCosts);
-		if (onlyGenerate) break;
+		if (onlyGenerate) exit(0);
 
 
 		int error_code = runFD(sasfile,downward,downwardConf,planFileName);
-- 
2.43.0


From 3a4b8bd67a1a476aa31eb116ad35aaea6d30ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 21/28] fix: set intersection keeps the common elements instead
 of reading past the set

---
 src/intDataStructures/noDelIntSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intDataStructures/noDelIntSet.cpp b/src/intDataStructures/noDelIntSet.cpp
index f4255a2..116cf4c 100644
--- a/src/intDataStructures/noDelIntSet.cpp
+++ b/src/intDataStructures/noDelIntSet.cpp
@@ -94,7 +94,7 @@ noDelIntSet* noDelIntSet::setIntersection(noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((moreElements->containerSize > i) && (moreElements->get(i)))
 			that->insert(i);
 	}
 	return that;
@@ -117,7 +117,7 @@ void noDelIntSet::setIntersection(noDelIntSet* result, noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((moreElements->containerSize > i) && (moreElements->get(i)))
 			result->insert(i);
 	}
 }
-- 
2.43.0


From 1dce8aa2f892d5111ab43380dfdad07ee9f45cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 22/28] fix: set with deletion while iterating links every
 element and goes on after deleting the first

---
 src/intDataStructures/delIterIntSet.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/intDataStructures/delIterIntSet.cpp b/src/intDataStructures/delIterIntSet.cpp
index 06e0afa..8be4a0a 100644
--- a/src/intDataStructures/delIterIntSet.cpp
+++ b/src/intDataStructures/delIterIntSet.cpp
@@ -45,8 +45,10 @@ void delIterIntSet::insert(int i) {
 			this->first = elem;
 			this->last = elem;
 		} else {
-			elem->next = this->last;
-			last->prev = elem;
+			elem->isLast = true;
+			elem->prev = this->last;
+			last->isLast = false;
+			last->next = elem;
 			this->last = elem;
 		}
 		currentSize++;
@@ -100,15 +102,17 @@ int delIterIntSet::delCurrentGetNext() {
 			this->first = nullptr;
 			this->last = nullptr;
 		}
+		this->currentIterElem = this->first;
 		delete elem;
 		currentSize--;
-		return -1;
+		return this->first ? this->first->value : -1;
 	} else if (this->currentIterElem->isLast) {
 		boolContainer[this->currentIterElem->value] = false;
 		assert(currentSize > 1); // otherwise the last case would be true
 		llInt* elem = this->currentIterElem;
 		this->currentIterElem->prev->isLast = true;
 		this->last = this->currentIterElem->prev;
+		this->currentIterElem = nullptr;
 		delete elem;
 		currentSize--;
 		return -1;
-- 
2.43.0


From b513a53cf6853bfabf9ef9f4dcbd173f34c6f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 23/28] fix: unsorted fringe releases all of its containers

---
 src/search/UnsortedFringe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/search/UnsortedFringe.cpp b/src/search/UnsortedFringe.cpp
index 3df71ff..c1ecade 100644
--- a/src/search/UnsortedFringe.cpp
+++ b/src/search/UnsortedFringe.cpp
@@ -19,9 +19,9 @@ UnsortedFringe::UnsortedFringe() {
 
 UnsortedFringe::~UnsortedFringe() {
 	UnsrtFringeContainer* temp;
-	while (firstContainer->hasPrevContainer) {
+	while (firstContainer->hasNextContainer) {
 		temp = firstContainer;
-		firstContainer = firstContainer->prevContainer;
+		firstContainer = firstContainer->nextContainer;
 		delete temp;
 	}
 	delete firstContainer;
-- 
2.43.0


From 7835221d36b9bb196c21d42baecceed89f2aa2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:54 +0000
Subject: [PATCH 24/28] fix: compressed sequence set split nodes wrongly for a
 sequence ending with its block

---
 src/intDataStructures/CompressedSequenceSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/intDataStructures/CompressedSequenceSet.cpp b/src/intDataStructures/CompressedSequenceSet.cpp
index ed93d09..5123348 100644
--- a/src/intDataStructures/CompressedSequenceSet.cpp
+++ b/src/intDataStructures/CompressedSequenceSet.cpp
@@ -242,6 +242,11 @@ void compressed_sequence_trie::insert(const vector<uint64_t> & sequence, int pad
 			DEBUG(cout << "\tNew sequence ends within." << endl);
 			block_with_first_difference = sequence.size() - myFirstBlock - 1;
 			splitBit = 64 - paddingBits;
+			// the sequence ends with its block: the split is before the first bit of the next one
+			if (splitBit == 64){
+				block_with_first_difference++;
+				splitBit = 0;
+			}
 			// split
 			split_me_at(block_with_first_difference,splitBit);
 			p = &payload;
-- 
2.43.0


From c7822f17d766b024aa6334f4a33243b0230803bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 25/28] fix: HDDL export keeps the orderings that run through a
 left out no-op

---
 src/Model.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 6bc2b45..00a42d1 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2905,18 +2905,30 @@ newlyReachedMLMs = new noDelIntSet();
 					int j = 0;
 					bool firstOrdering = true;
 					while (j < this->numOrderings[i]) {
-						if (this->ordering[i][j] == possibleMethodPrecondition || noopIDs.count(this->ordering[i][j]) || noopIDs.count(this->ordering[i][j + 1]) ) {
+						if (this->ordering[i][j] == possibleMethodPrecondition || noopIDs.count(this->ordering[i][j])) {
 							j+=2;
 							continue;
 						}
-						if (firstOrdering) {
-							dfile << "     :ordering (and" << endl;
-							firstOrdering = false;
+						// what is ordered before a left out no-op is ordered before everything after it
+						set<int> after;
+						stack<int> todo;
+						todo.push(this->ordering[i][j + 1]);
+						while (todo.size()) {
+							int c = todo.top(); todo.pop();
+							if (!after.insert(c).second || noopIDs.count(c) == 0) continue;
+							for (int k = 0; k < this->numOrderings[i]; k += 2)
+								if (this->ordering[i][k] == c) todo.push(this->ordering[i][k + 1]);
+						}
+						for (int x : after) {
+							if (noopIDs.count(x)) continue;
+							if (firstOrdering) {
+								dfile << "     :ordering (and" << endl;
+								firstOrdering = false;
+							}
+
+							dfile << "        (task" << this->ordering[i][j] << " < task" << x << ")"
+								<< endl;
 						}
-						
-						
-						dfile << "        (task" << this->ordering[i][j] << " < task" << this->ordering[i][j + 1] << ")"
-							<< endl;
 						j += 2;
 					}
 					if (!firstOrdering) dfile << "     )" << endl;
-- 
2.43.0


From b0a68e6a7002dd53e9057c68d5d77f4568570d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 26/28] fix: symbolic plan extraction goes back to the
 preceding cost layer when costs leave gaps

---
 src/symbolic_search/automaton.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index f2248a9..9f4036f 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -52,6 +52,7 @@ BDD biimp;
 
 // XXX hacky
 std::map<int,int> methods_with_two_tasks_vertex;
+std::map<int,int> last_layer_of_cost; // costs that had a layer so far, with the depth of their last one
 
 std::string to_string(Model * htn){
 	std::string s = "digraph graphname {\n";
@@ -313,10 +314,12 @@ pair<int,int> prev(int cost, int depth){
 	if (depth != 0)
 		return {cost, depth-1};
 
-	if (abst_q[cost-1].size() == 0)
+	// the costs of consecutive layers may differ by more than one
+	auto layer = last_layer_of_cost.lower_bound(cost);
+	if (layer == last_layer_of_cost.begin())
 		return {cost-1, 0};
 	
-	return {cost-1, (--abst_q[cost-1].end())->first};
+	return *(--layer);
 }
 
 
@@ -1709,6 +1712,7 @@ void build_automaton(Model * htn){
 
 		lastCost = currentCost;
 		lastDepth = currentDepthInAbstract;
+		last_layer_of_cost[lastCost] = lastDepth;
 
 		// check whether we have to stay abstract
 		std::map<int,std::map<std::tuple<int,int>, std::vector<tracingInfo> >>::iterator next_abstract_layer;
-- 
2.43.0


From 591b44792bedcc11500915f6d438c3a3c8c7227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:19 +0000
Subject: [PATCH 27/28] fix: symbolic search uses every new epsilon state, also
 where no edge continues from it

---
 src/symbolic_search/automaton.cpp | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 9f4036f..07f450c 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -949,10 +949,10 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 			std::deque<int> epsilonMethodStack;
 			std::deque<BDD> epsilonStateStack;
 
-			epsilonTaskStack.push_back(remainingTask);
-			epsilonMethodStack.push_back(remainingMethod);
-			ensureBDD(remainingTask, remainingMethod, pCost, pDepth, sym_vars);
-			epsilonStateStack.push_back(edges[0][remainingTask][remainingMethod][cost][depth] * !edges[0][remainingTask][remainingMethod][pCost][pDepth]);
+			// the bottom of the stack is only a placeholder, it contributes the state after the epsilon transition
+			epsilonTaskStack.push_back(firstTask);
+			epsilonMethodStack.push_back(toVertex);
+			epsilonStateStack.push_back(edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsEff));
 		
 			// regress through the last operation that we performed
 			predecessorsIsPossible = generatePredecessor(lastTask,toVertex,
@@ -1356,6 +1356,8 @@ void build_automaton(Model * htn){
 	 					BDD disjunct = eps[to][currentCost][currentDepthInAbstract] + nextState;  
 						if (disjunct != eps[to][currentCost][currentDepthInAbstract]){
 							eps[to][currentCost][currentDepthInAbstract] = disjunct;
+							tracingInfo tracingInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], -1, -1, -1};
+							eps_inserted[to][currentCost][currentDepthInAbstract].push_back(tracingInf);
 							DEBUG(std::cout << "\t\t\t\t\t\t" << color(MAGENTA,"Adding to eps of ") << vertex_to_method[to] << std::endl);
 							
 	
@@ -1441,9 +1443,6 @@ void build_automaton(Model * htn){
 											std::cout << task2 << " " << vertex_to_method[to2] << std::endl);
 									addQ(task2, to2, 0, task, to, htn->emptyMethod[task], -1, -1, false); // no method as primitive
 							
-									
-									tracingInfo tracingInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], task2, to2, -1};
-									eps_inserted[to][currentCost][currentDepthInAbstract].push_back(tracingInf);
 								
 									
 									//if (step == 141){
@@ -1566,11 +1565,12 @@ void build_automaton(Model * htn){
 											for (int depth = 0; depth < eps[methods_with_two_tasks_vertex[method]][cost].size(); depth++){
 												//if (cost == currentCost && depth == currentDepthInAbstract) break; // don't take epsilons from current layer, they will be handled elsewhere ...?
 												
-												// there is no reason to consider this, as there was no newly inserted epsilon state
-												if (eps_inserted[methods_with_two_tasks_vertex[method]][cost][depth].size() == 0) continue; 
-		
 												// state after eps in v and stack push state in v'
 												BDD epsCurrent = eps[methods_with_two_tasks_vertex[method]][cost][depth];
+												// consider only the epsilon states that are new in this layer, the others belong to an earlier one
+												auto [pCost, pDepth] = prev(cost, depth);
+												if (eps[methods_with_two_tasks_vertex[method]][pCost].count(pDepth)) // costs without a layer have no epsilon states
+													epsCurrent = epsCurrent * !eps[methods_with_two_tasks_vertex[method]][pCost][pDepth];
 			
 												// determine the state intersection, i.e. whether we actually have a possible epsilon shortcut at this state
 												BDD epsilonIntersect = epsCurrent * sIntersect;
@@ -1614,15 +1614,7 @@ void build_automaton(Model * htn){
 													addQ(tasks_per_method[method].second, to, actualCost, task, to, method, cost, depth, true); 
 												}
 												////////////////////////////////////////////////////////////////	
-	
-												// remove the part of the state that we handled from consideration
-												sIntersect = sIntersect * !(epsilonIntersect.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsPre));
-												if (sIntersect.IsZero()) break;
-											}
-											if (sIntersect.IsZero()){
-												DEBUG(std::cout << "\t\t\t\t" << color(RED,"no intersection remaining.") << std::endl);
-												break;
-											}
+												}
 										}
 
 										sIntersect = intersectionBDD.SwapVariables(sym_vars.swapVarsPre, sym_vars.swapVarsEff);
-- 
2.43.0


From e9b1aca5e05b4223c3e69b741e1834798b5a3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:19 +0000
Subject: [PATCH 28/28] fix: symbolic search continues on the edges that
 appeared after the state was pushed

---
 src/symbolic_search/automaton.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 07f450c..7145b92 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1361,12 +1361,14 @@ void build_automaton(Model * htn){
 							DEBUG(std::cout << "\t\t\t\t\t\t" << color(MAGENTA,"Adding to eps of ") << vertex_to_method[to] << std::endl);
 							
 	
+							// continue on all edges of the preceding layer, an edge may be younger than the layer this state is from
+							auto [edgeCost, edgeDepth] = prev(currentCost, currentDepthInAbstract);
 							for (auto & [task2,tos] : edges[to]){
 								for (auto & [to2,bdds] : tos){
-									if (!bdds.count(lastCost) || !bdds[lastCost].count(lastDepth)) continue;
+									if (!bdds.count(edgeCost) || !bdds[edgeCost].count(edgeDepth)) continue;
 									DEBUG(std::cout << "\tContinuing edge: " << task2 << " " << vertex_to_method[to2] << "\t" << htn->taskNames[task2] << std::endl);
 									
-									BDD bdd = bdds[lastCost][lastDepth];
+									BDD bdd = bdds[edgeCost][edgeDepth];
 									BDD addStateWithIntermediate = nextState * bdd;
 									BDD originalAddStateWithIntermediate = addStateWithIntermediate;
 									// we only add something if it is not already at the edge ...
-- 
2.43.0

