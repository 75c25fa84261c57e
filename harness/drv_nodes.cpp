// Walks the search space of a problem with the engine's own progression (Model::decompose / Model::apply)
// and writes every node, every edge (with the trace of transitions the engine recorded), the values of
// all relaxed-composition heuristics, and the answers of the visited list as JSON.
//   drv_nodes heur <file> <seed> <max nodes> <max steps>
//   drv_nodes dup  <file> <seed> <max nodes> <max steps> <flags>...
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <random>
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <algorithm>
#include <map>
#include <set>
#include <deque>
#include "Model.h"
#include "ProgressionNetwork.h"
#include "VisitedList.h"
#include "hhZero.h"
#include "hhSimple.h"
#include "heuristics/rcHeuristics/hhRC2.h"
using namespace std;
using namespace progression;

static FILE* out;
static Model* htn;
static mt19937 rng;
static int rnd(int n){ return rng() % n; }

struct Rec { searchNode* n; int id; };
static vector<searchNode*> nodes;

static void collect(searchNode* n, vector<planStep*>& all){
	set<planStep*> seen; deque<planStep*> todo;
	for (int i = 0; i < n->numAbstract; i++) todo.push_back(n->unconstraintAbstract[i]);
	for (int i = 0; i < n->numPrimitive; i++) todo.push_back(n->unconstraintPrimitive[i]);
	while (!todo.empty()){
		planStep* s = todo.front(); todo.pop_front();
		if (!seen.insert(s).second) continue;
		all.push_back(s);
		for (int i = 0; i < s->numSuccessors; i++) todo.push_back(s->successorList[i]);
	}
}
static int steps(searchNode* n){ vector<planStep*> a; collect(n, a); return a.size(); }

static vector<Heuristic*> hs;
static vector<string> hn;

// ids are (decomposition instance, position) as the engine records them for its solutions
static string dump(searchNode* n, bool heur){
	ostringstream o; vector<planStep*> all; collect(n, all);
	map<planStep*,int> pos; for (size_t i = 0; i < all.size(); i++) pos[all[i]] = i + 1;
	auto lst = [&](int c, planStep** p){ o << "["; for (int i = 0; i < c; i++) o << (i ? "," : "") << pos[p[i]]; o << "]"; };
	o << "{\"st\":["; bool f = true;
	for (int i = 0; i < htn->numStateBits; i++) if (n->state[i]) { o << (f ? "" : ",") << i; f = false; }
	o << "],\"id\":["; for (size_t i = 0; i < all.size(); i++) o << (i ? "," : "") << "[" << all[i]->parentSolutionStepInstanceNumber << "," << all[i]->myPositionInParent << "]";
	o << "],\"t\":["; for (size_t i = 0; i < all.size(); i++) o << (i ? "," : "") << all[i]->task;
	o << "],\"o\":["; f = true;
	for (size_t i = 0; i < all.size(); i++) for (int j = 0; j < all[i]->numSuccessors; j++){ o << (f ? "" : ",") << "[" << i + 1 << "," << pos[all[i]->successorList[j]] << "]"; f = false; }
	o << "],\"fa\":"; lst(n->numAbstract, n->unconstraintAbstract);
	o << ",\"fp\":"; lst(n->numPrimitive, n->unconstraintPrimitive);
	o << ",\"md\":" << n->modificationDepth << ",\"mmd\":" << n->mixedModificationDepth << ",\"g\":" << n->actionCosts;
	o << ",\"ct\":["; for (int i = 0; i < n->numContainedTasks; i++) o << (i ? "," : "") << "[" << n->containedTasks[i] << "," << n->containedTaskCount[i] << "]";
	// reachable actions of the unconstrained steps; -1 if not computed
	o << "],\"rt\":["; f = true;
	for (int w = 0; w < 2; w++) for (int i = 0; i < (w ? n->numPrimitive : n->numAbstract); i++){
		planStep* s = w ? n->unconstraintPrimitive[i] : n->unconstraintAbstract[i];
		o << (f ? "" : ",") << "[" << pos[s] << ",["; f = false;
		if (!s->reachableT) o << "-1";
		else { bool g = true; for (int j = 0; j < s->numReachableT; j++) { o << (g ? "" : ",") << s->reachableT[j]; g = false; } }
		o << "]]";
	}
	o << "],\"app\":["; f = true;
	for (int i = 0; i < n->numPrimitive; i++) if (htn->isApplicable(n, n->unconstraintPrimitive[i]->task)) { o << (f ? "" : ",") << pos[n->unconstraintPrimitive[i]]; f = false; }
	o << "],\"goal\":" << (htn->isGoal(n) ? 1 : 0) << ",\"gr\":" << (n->goalReachable ? 1 : 0);
	o << ",\"h\":["; for (size_t i = 0; heur && i < hs.size(); i++) o << (i ? "," : "") << (n->heuristicValue[i] == UNREACHABLE ? -1 : n->heuristicValue[i]);
	o << "]}";
	return o.str();
}

static bool firstNode = true, firstEdge = true;
static vector<string> edges;

static int add(searchNode* n, bool heur){
	fprintf(out, "%s%s", firstNode ? "" : ",\n", dump(n, heur).c_str()); firstNode = false;
	nodes.push_back(n);
	return nodes.size() - 1;
}

// the transitions between a node and its child, in order
static string trace(searchNode* p, searchNode* c){
	vector<solutionStep*> v;
	for (solutionStep* s = c->solution; s && s != p->solution; s = s->prev) v.push_back(s);
	reverse(v.begin(), v.end());
	ostringstream o; o << "[";
	for (size_t i = 0; i < v.size(); i++)
		o << (i ? "," : "") << "[" << v[i]->task << "," << v[i]->method << "," << v[i]->parentSolutionStepInstanceNumber << "," << v[i]->myPositionInParent << "," << v[i]->mySolutionStepInstanceNumber << "]";
	o << "]"; return o.str();
}

static void evaluate(searchNode* n, searchNode* parent, bool dec, int x, int y){
	n->heuristicValue = new int[hs.size() + 1];
	bool gr = n->goalReachable;
	for (size_t i = 0; i < hs.size(); i++){
		n->goalReachable = true;
		if (dec) hs[i]->setHeuristicValue(n, parent, x, y); else hs[i]->setHeuristicValue(n, parent, x);
	}
	n->goalReachable = gr;
}

int main(int argc, char** argv){
	string mode = argv[1], file = argv[2]; int seed = atoi(argv[3]), maxn = atoi(argv[4]), maxs = atoi(argv[5]);
	out = fdopen(dup(1), "w");
	cout.rdbuf(nullptr); cerr.rdbuf(nullptr);
	freopen("/dev/null", "w", stdout);
	rng.seed(seed); srand(seed);
	htn = new Model(true, mtrACTIONS, true, true);
	htn->filename = file;
	ifstream in(file); htn->read(&in);
	searchNode* tnI = htn->prepareTNi(htn);
	htn->calcSCCs(); htn->calcSCCGraph(); htn->updateReachability(tnI);
	if (mode == "heur"){
		const char* inner[] = {"lmc","filter","ff","add"}; eEstimate es[] = {estCOSTS, estDISTANCE, estMIXED}; const char* en[] = {"cost","distance","mixed"};
		int k = 0;
		hs.push_back(new hhZero(htn, k++)); hn.push_back("zero");
		for (int i = 0; i < 4; i++) for (int e = 0; e < 3; e++) for (int c = 0; c < 2; c++){
			Heuristic* h;
			if (i == 0) h = new hhRC2<hsLmCut>(htn, k, es[e], !c);
			else if (i == 1) h = new hhRC2<hsFilter>(htn, k, es[e], !c);
			else { auto x = new hhRC2<hsAddFF>(htn, k, es[e], !c); x->sasH->heuristic = i == 2 ? sasFF : sasAdd; h = x; }
			k++; hs.push_back(h); hn.push_back(string("rc2(") + inner[i] + ";" + en[e] + (c ? ";no)" : ")"));
		}
	}
	bool heur = mode == "heur";
	fprintf(out, "{\"names\":[");
	for (size_t i = 0; i < hn.size(); i++) fprintf(out, "%s\"%s\"", i ? "," : "", hn[i].c_str());
	fprintf(out, "],\"nodes\":[\n");
	tnI->heuristicValue = new int[hs.size() + 1];
	for (size_t i = 0; i < hs.size(); i++) tnI->heuristicValue[i] = 0;
	add(tnI, heur);
	vector<int> pool(1, 0);
	// expansions of randomly chosen nodes, in dup mode preferring the recent ones and repeating some
	while (!pool.empty() && (int) nodes.size() < maxn){
		int w = pool.size() <= 3 || rnd(2) ? rnd(pool.size()) : pool.size() - 1 - rnd(3);
		int p = pool[w]; searchNode* n = nodes[p];
		if (mode != "dup" || rnd(4)) pool.erase(pool.begin() + w);
		struct Ch { bool dec; int i, m; };
		vector<Ch> ch;
		for (int a = 0; a < n->numAbstract; a++){ int t = n->unconstraintAbstract[a]->task; for (int m = 0; m < htn->numMethodsForTask[t]; m++) ch.push_back({true, a, htn->taskToMethods[t][m]}); }
		for (int a = 0; a < n->numPrimitive; a++) if (htn->isApplicable(n, n->unconstraintPrimitive[a]->task)) ch.push_back({false, a, 0});
		shuffle(ch.begin(), ch.end(), rng);
		int lim = mode == "dup" ? maxn : 12;
		for (Ch& c : ch){
			if (lim-- <= 0 || (int) nodes.size() >= maxn) break;
			planStep* ps = c.dec ? n->unconstraintAbstract[c.i] : n->unconstraintPrimitive[c.i];
			searchNode* n2 = c.dec ? htn->decompose(n, c.i, c.m) : htn->apply(n, c.i);
			if (steps(n2) > maxs) continue;
			// the progression may find out that there is no solution; the search drops such nodes
			if (heur) evaluate(n2, n, c.dec, c.dec ? c.i : ps->task, c.m);
			int id = add(n2, heur);
			ostringstream o; o << "{\"p\":" << p + 1 << ",\"c\":" << id + 1 << ",\"dec\":" << (c.dec ? 1 : 0) << ",\"m\":" << (c.dec ? c.m : ps->task)
				<< ",\"s\":[" << ps->parentSolutionStepInstanceNumber << "," << ps->myPositionInParent << "],\"tr\":" << trace(n, n2) << "}";
			edges.push_back(o.str());
			if (n2->goalReachable) pool.push_back(id);
		}
	}
	fprintf(out, "],\"edges\":[");
	for (size_t i = 0; i < edges.size(); i++) fprintf(out, "%s%s", i ? ",\n" : "", edges[i].c_str());
	fprintf(out, "],\"visi\":[");
	if (mode == "dup"){
		// flags: V = no reopening, T/Q/O/P/L/G/S off: task hash, sequence hash, topological order, order pairs, layers, isomorphism check, parallel sequences
		for (int a = 6; a < argc; a++){
			string f = argv[a]; auto has = [&](char c){ return f.find(c) != string::npos; };
			VisitedList* v = new VisitedList(htn, false, has('N'), !has('T'), !has('Q'), !has('O'), !has('P'), !has('L'), !has('G'), !has('S'));
			const char* md = v->canDeleteProcessedNodes ? "seq" : "po";
			fprintf(out, "%s{\"flags\":\"%s\",\"mode\":\"%s\",\"to\":%d,\"ev\":[", a > 6 ? ",\n" : "", f.c_str(), md, htn->isTotallyOrdered ? 1 : 0);
			vector<int> ord; for (size_t i = 0; i < nodes.size(); i++) if (nodes[i]->goalReachable) ord.push_back(i);
			shuffle(ord.begin(), ord.end(), rng);
			bool f1 = true;
			for (int i : ord){
				searchNode* n = nodes[i];
				n->fValue = rnd(3) ? rnd(4) : rnd(2) * 70000;
				int fv = n->fValue;
				bool r = v->insertVisi(n);
				fprintf(out, "%s[%d,%d,%d]", f1 ? "" : ",", i + 1, fv, r ? 1 : 0); f1 = false;
			}
			fprintf(out, "],\"att\":%d,\"uniq\":%d}", v->attemptedInsertions, v->uniqueInsertions);
		}
	}
	fprintf(out, "]}\n"); fclose(out); _exit(0);
}
