// What the engine derives from a problem on loading, as JSON:
//   drv_model hier <file>                      orderings, classifications, SCCs, minimal implied values
//   drv_model inv  <file> <0|1>                binary invariants (1: with the fixpoint computation)
//   drv_model lm   <file> <seed> <max nodes> <max steps>   landmarks of nodes along random progressions
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <random>
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <algorithm>
#include <map>
#include <set>
#include <deque>
#include <unordered_set>
#include "Model.h"
#include "ProgressionNetwork.h"
#include "Invariants.h"
#include "heuristics/rcHeuristics/hhRC2.h"
#include "heuristics/landmarks/lmExtraction/LMsInAndOrGraphs.h"
#include "heuristics/landmarks/lmExtraction/LmCausal.h"
#include "planningGraph.h"
using namespace std;
using namespace progression;

static FILE* out;
static Model* htn;
static mt19937 rng;
static int rnd(int n){ return rng() % n; }

template<class T> static string lst(int n, T f){ ostringstream o; o << "["; for (int i = 0; i < n; i++) o << (i ? "," : "") << f(i); o << "]"; return o.str(); }
static string arr(const int* a, int n){ return lst(n, [&](int i){ return a[i]; }); }
static string orders(){ return lst(htn->numMethods, [&](int m){ return arr(htn->ordering[m], htn->numOrderings[m]); }); }

static void collect(searchNode* n, vector<planStep*>& all){
	set<planStep*> seen; deque<planStep*> todo;
	for (int i = 0; i < n->numAbstract; i++) todo.push_back(n->unconstraintAbstract[i]);
	for (int i = 0; i < n->numPrimitive; i++) todo.push_back(n->unconstraintPrimitive[i]);
	while (!todo.empty()){
		planStep* s = todo.front(); todo.pop_front();
		if (!seen.insert(s).second) continue;
		all.push_back(s);
		for (int i = 0; i < s->numSuccessors; i++) todo.push_back(s->successorList[i]);
	}
}

static string net(searchNode* n){
	vector<planStep*> all; collect(n, all); map<planStep*,int> pos; for (size_t i = 0; i < all.size(); i++) pos[all[i]] = i;
	ostringstream o; o << "\"t\":" << lst(all.size(), [&](int i){ return all[i]->task; }) << ",\"o\":[";
	bool f = true;
	for (size_t i = 0; i < all.size(); i++) for (int j = 0; j < all[i]->numSuccessors; j++){ o << (f ? "" : ",") << "[" << i << "," << pos[all[i]->successorList[j]] << "]"; f = false; }
	o << "],\"st\":["; f = true;
	for (int i = 0; i < htn->numStateBits; i++) if (n->state[i]) { o << (f ? "" : ",") << i; f = false; }
	o << "]"; return o.str();
}

static string atoms(landmark** l, int n){
	return lst(n, [&](int i){ ostringstream o; o << "[" << (l[i]->type == fact ? 0 : l[i]->type == task ? 1 : l[i]->type == METHOD ? 2 : 3) << "," << arr(l[i]->lm, l[i]->size) << "]"; return o.str(); });
}

int main(int argc, char** argv){
	string mode = argv[1], file = argv[2];
	out = fdopen(dup(1), "w");
	cout.rdbuf(nullptr); cerr.rdbuf(nullptr);
	freopen("/dev/null", "w", stdout);
	htn = new Model(true, mtrACTIONS, true, true);
	htn->filename = file;
	if (mode == "inv") htn->rintanenInvariants = true;
	ifstream in(file); htn->read(&in);
	if (mode == "hier"){
		int N = htn->numTasks, M = htn->numMethods;
		fprintf(out, "{\"red\":%s,\"to\":%d,\"par\":%d", orders().c_str(), htn->isTotallyOrdered, htn->isParallelSequences);
		fprintf(out, ",\"meth\":%s", lst(N, [&](int t){ return arr(htn->taskToMethods[t], htn->numMethodsForTask[t]); }).c_str());
		fprintf(out, ",\"used\":%s", lst(N, [&](int t){ return arr(htn->stToMethod[t], htn->stToMethodNum[t]); }).c_str());
		fprintf(out, ",\"first\":%s", lst(M, [&](int m){ return arr(htn->methodsFirstTasks[m], htn->numFirstTasks[m]); }).c_str());
		fprintf(out, ",\"last\":%s", lst(M, [&](int m){ return arr(htn->methodsLastTasks[m], htn->numLastTasks[m]); }).c_str());
		fprintf(out, ",\"dist\":%s", lst(M, [&](int m){ return lst(htn->numDistinctSTs[m], [&](int i){ ostringstream o; o << "[" << htn->sortedDistinctSubtasks[m][i] << "," << htn->sortedDistinctSubtaskCount[m][i] << "]"; return o.str(); }); }).c_str());
		htn->calcSCCs(); htn->calcSCCGraph(); htn->analyseSCCcyclicity(); htn->calcMinimalImpliedX();
		int S = htn->numSCCs;
		fprintf(out, ",\"scc\":%s,\"sccs\":%s", arr(htn->taskToSCC, N).c_str(), lst(S, [&](int i){ return arr(htn->sccToTasks[i], htn->sccSize[i]); }).c_str());
		fprintf(out, ",\"cyc\":%s,\"self\":%d,\"maxscc\":%d", arr(htn->sccsCyclic, htn->numCyclicSccs).c_str(), htn->numSccOneWithSelfLoops, htn->sccMaxSize);
		fprintf(out, ",\"succ\":%s", lst(S, [&](int i){ return arr(htn->sccG[i], htn->sccGnumSucc[i]); }).c_str());
		fprintf(out, ",\"pred\":%s", lst(S, [&](int i){ return arr(htn->sccGinverse[i], htn->sccGnumPred[i]); }).c_str());
		fprintf(out, ",\"top\":%s,\"acyc\":%s", arr(htn->sccTopOrder, S).c_str(), lst(S, [&](int i){ return htn->sccIsAcyclic[i] ? 1 : 0; }).c_str());
		fprintf(out, ",\"reach\":%s", lst(N, [&](int t){ return arr(htn->reachable[t], htn->numReachable[t]); }).c_str());
		fprintf(out, ",\"mc\":%s,\"md\":%s", arr(htn->minEstimatedCosts, N).c_str(), arr(htn->minImpliedDistance, N).c_str());
		// as the SAT planner does: the closure, then the orderings' data structures
		htn->computeTransitiveClosureOfMethodOrderings();
		fprintf(out, ",\"clo\":%s", orders().c_str());
		htn->buildOrderingDatastructures();
		fprintf(out, ",\"mto\":%s,\"lin\":%s", lst(M, [&](int m){ return htn->methodIsTotallyOrdered[m] ? 1 : 0; }).c_str(), lst(M, [&](int m){ return arr(htn->methodTotalOrder[m], htn->numSubTasks[m]); }).c_str());
		auto us = [&](unordered_set<int>** s){ return lst(M, [&](int m){ return lst(htn->numSubTasks[m], [&](int i){ vector<int> v(s[m][i].begin(), s[m][i].end()); sort(v.begin(), v.end()); return arr(v.data(), v.size()); }); }); };
		fprintf(out, ",\"pre\":%s,\"suc\":%s}\n", us(htn->methodSubTasksPredecessors).c_str(), us(htn->methodSubTasksSuccessors).c_str());
	} else if (mode == "inv"){
		extract_invariants_from_parsed_model(htn);
		if (argv[3][0] == '1') compute_Rintanen_Invariants(htn);
		int F = htn->numStateBits; bool f = true;
		fprintf(out, "{\"cl\":[");
		for (int a = 0; a < 2 * F; a++) for (int b : binary_invariants[a]){ fprintf(out, "%s[%d,%d]", f ? "" : ",", a - F, b); f = false; }
		fprintf(out, "],\"ex\":["); f = true;
		for (int a = -F; a < F; a++) for (int b = -F; b < F; b++) if (!can_state_features_co_occur(htn, a, b)){ fprintf(out, "%s[%d,%d]", f ? "" : ",", a, b); f = false; }
		fprintf(out, "]}\n");
	} else {
		int seed = atoi(argv[3]), maxn = atoi(argv[4]), maxs = atoi(argv[5]);
		rng.seed(seed); srand(seed);
		searchNode* n = htn->prepareTNi(htn);
		htn->calcSCCs(); htn->calcSCCGraph(); htn->updateReachability(n);
		LMsInAndOrGraphs ao(htn); ao.generateAndOrLMs(n); landmark** l = ao.getLMs();
		fprintf(out, "{\"nodes\":[\n{%s,\"ao\":%s", net(n).c_str(), atoms(l, ao.getNumLMs()).c_str());
		LMsInAndOrGraphs lo(htn); lo.generateLocalLMs(htn, n); l = lo.getLMs();
		fprintf(out, ",\"loc\":%s", atoms(l, lo.getNumLMs()).c_str());
		LmCausal lc(htn), lp(htn); planningGraph pg(htn);
		noDelIntSet down; down.init(htn->numTasks);
		hhRC2<hsLmCut> hc(htn, 0, estCOSTS, true), hd(htn, 1, estDISTANCE, true);
		searchNode* root = n;
		n->heuristicValue = new int[3];
		for (int k = 0; k < maxn; k++){
			if (k) fprintf(out, ",\n{%s", net(n).c_str());
			n->heuristicValue = new int[3];
			lc.calcLMs(n);
			fprintf(out, ",\"lc\":%s", atoms(lc.getLMs(), lc.getNumLMs()).c_str());
			// the same with the unreachable parts left out, as found by the planning graph
			down.clear();
			vector<planStep*> all0; collect(n, all0); for (planStep* s : all0) down.insert(s->task);
			for (int x = 0; x < down.getSize(); x++){
				int t = -1, y = 0; for (t = down.getFirst(); y < x; y++) t = down.getNext();
				for (int m = 0; m < htn->numMethodsForTask[t]; m++){ int mm = htn->taskToMethods[t][m]; for (int j = 0; j < htn->numSubTasks[mm]; j++) down.insert(htn->subTasks[mm][j]); }
			}
			pg.calcReachability(n->state, down);
			lp.calcLMs(n, &pg);
			fprintf(out, ",\"lp\":%s,\"uf\":[", atoms(lp.getLMs(), lp.getNumLMs()).c_str());
			bool u = true;
			for (int i = 0; i < htn->numStateBits; i++) if (!pg.factReachable(i)) { fprintf(out, "%s[0,%d]", u ? "" : ",", i); u = false; }
			for (int i = 0; i < htn->numTasks; i++) if (down.get(i) && !pg.taskReachable(i)) { fprintf(out, "%s[1,%d]", u ? "" : ",", i); u = false; }
			for (int i = 0; i < htn->numMethods; i++) if (down.get(htn->decomposedTask[i]) && !pg.methodReachable(i)) { fprintf(out, "%s[2,%d]", u ? "" : ",", i); u = false; }
			fprintf(out, "]");
			for (auto h : {&hc, &hd}){
				int v = h->setHeuristicValue(n); n->heuristicValue[0] = n->heuristicValue[1] = 0;
				fprintf(out, ",\"%s\":[", h == &hc ? "cc" : "cd");
				bool f = true;
				if (v != UNREACHABLE) for (LMCutLandmark* c : *h->cuts){
					fprintf(out, "%s%s", f ? "" : ",", lst(c->size, [&](int i){ ostringstream o; o << "[" << (c->isMethod(i) ? 2 : 1) << "," << c->lm[i] << "]"; return o.str(); }).c_str()); f = false;
				}
				fprintf(out, "]");
			}
			fprintf(out, "}");
			// one more step of a random progression
			struct Ch { bool dec; int i, m; }; vector<Ch> ch;
			for (int a = 0; a < n->numAbstract; a++){ int t = n->unconstraintAbstract[a]->task; for (int m = 0; m < htn->numMethodsForTask[t]; m++) ch.push_back({true, a, htn->taskToMethods[t][m]}); }
			for (int a = 0; a < n->numPrimitive; a++) if (htn->isApplicable(n, n->unconstraintPrimitive[a]->task)) ch.push_back({false, a, 0});
			shuffle(ch.begin(), ch.end(), rng);
			searchNode* x = nullptr;
			for (Ch& c : ch){
				x = c.dec ? htn->decompose(n, c.i, c.m) : htn->apply(n, c.i);
				vector<planStep*> all; collect(x, all);
				if (!x->goalReachable || (int) all.size() > maxs) { x = nullptr; continue; }
				break;
			}
			n = x ? x : root;
			if (n == root && !rnd(2)) break;
		}
		fprintf(out, "]}\n");
	}
	fflush(out);
	_exit(0);
}
