// Conformance driver of the SAT planner's clause helpers (src/sat/sat_encoder): random groups of constraints are
// posted to one solver, and the solver is then asked, under assumptions on the inputs, what the clauses allow.
// usage: drv_sat small|large seed histories events out.json   (one history per line)
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <set>
#include <string>
#include <vector>
#include "sat/sat_encoder.h"
#include "sat/ipasir.h"
typedef std::vector<int> V;
static std::mt19937 g;
static int rn(int n){ return (int)(g() % (unsigned)n); }
static FILE * out;
static bool firstE;
static void arr(const V & v){ fputc('[', out); for (size_t i = 0; i < v.size(); i++) fprintf(out, "%s%d", i ? "," : "", v[i]); fputc(']', out); }
static void ev(const char * o, const char * c, int k, const V & i, const V & j, int r){
	fprintf(out, "%s{\"o\":\"%s\",\"c\":\"%s\",\"k\":%d,\"r\":%d,\"i\":", firstE ? "" : ",", o, c, k, r); firstE = false;
	arr(i); fprintf(out, ",\"j\":"); arr(j); fputc('}', out);
}
struct World {
	void * s = ipasir_init();
	sat_capsule cap;
	V in; // variable of input 1..n
	~World(){ ipasir_release(s); }
	V vars(const V & i){ V r; for (int x : i) r.push_back(in[x - 1]); return r; }
	std::set<int> sets(const V & i){ V v = vars(i); return std::set<int>(v.begin(), v.end()); }
	int ask(const V & t, const V & f){
		for (int x : t) ipasir_assume(s, in[x - 1]);
		for (int x : f) ipasir_assume(s, -in[x - 1]);
		return ipasir_solve(s) == 10;
	}
	void post(const char * c, int k, const V & i, const V & j){
		V I = vars(i), J = vars(j); std::string n = c;
		if (n == "yes") assertYes(s, I[0]);
		else if (n == "no") assertNot(s, I[0]);
		else if (n == "implies") implies(s, I[0], J[0]);
		else if (n == "impliesAnd") impliesAnd(s, I[0], I[1], J[0]);
		else if (n == "impliesNot") impliesNot(s, I[0], J[0]);
		else if (n == "impliesOr") impliesOr(s, I[0], J);
		else if (n == "posNegOr") impliesPosAndNegImpliesOr(s, I[0], I[1], J);
		else if (n == "allNot") impliesAllNot(s, I[0], J);
		else if (n == "notAllNot") notImpliesAllNot(s, I[0], J);
		else if (n == "andImplies") andImplies(s, I[0], I[1], J[0]);
		else if (n == "setImplies") andImplies(s, sets(i), J[0]);
		else if (n == "notAll") notAll(s, sets(i));
		else if (n == "amo") atMostOne(s, cap, I);
		else if (n == "alo") atLeastOne(s, cap, I);
		else if (n == "amk") atMostK(s, cap, k, I);
		ev("post", c, k, i, j, 0);
	}
	void inputs(int n){ for (int i = 0; i < n; i++){ if (rn(7) == 0) cap.new_variable(); in.push_back(cap.new_variable()); } }
	V pick(int n, V from){ std::shuffle(from.begin(), from.end(), g); from.resize(n); return from; }
};
static V upto(int n){ V v; for (int i = 1; i <= n; i++) v.push_back(i); return v; }

static void small(){
	World w; int n = 3 + rn(5); w.inputs(n);
	ev("inputs", "", n, V(), V(), 0);
	static const char * C[] = {"yes","no","implies","impliesAnd","impliesNot","impliesOr","posNegOr","allNot","notAllNot","andImplies","setImplies","notAll","amo","alo","amk","amk","amo"};
	int posts = 1 + rn(4);
	for (int p = 0; p < posts; p++){
		const char * c = C[rn(sizeof C / sizeof *C)]; std::string m = c;
		V all = w.pick(n, upto(n)); int ni = 1, nj = 0, k = 0;
		if (m == "implies" || m == "impliesNot") nj = 1;
		else if (m == "impliesAnd" || m == "andImplies") ni = 2, nj = 1;
		else if (m == "impliesOr" || m == "allNot" || m == "notAllNot") nj = rn(n);
		else if (m == "posNegOr") ni = 2, nj = rn(n - 1);
		else if (m == "setImplies") ni = rn(n), nj = 1;
		else if (m == "notAll" || m == "alo") ni = 1 + rn(n);
		else if (m == "amo") ni = rn(n + 1);
		else if (m == "amk") ni = rn(n + 1), k = rn(ni + 2);
		w.post(c, k, V(all.begin(), all.begin() + ni), V(all.begin() + ni, all.begin() + ni + nj));
		bool exact = rn(3) > 0; // all assignments, or partial ones
		if (p + 1 < posts && rn(2)) continue;
		int qs = exact ? 1 << n : 24;
		for (int q = 0; q < qs; q++){
			V t, f;
			for (int x = 1; x <= n; x++){
				int b = exact ? (q >> (x - 1)) & 1 : rn(3);
				if (b == 1) t.push_back(x); else if (b == 0) f.push_back(x);
			}
			ev("ask", "", 0, t, f, w.ask(t, f));
		}
	}
}

// one cardinality constraint over many inputs: pairs (all with an index distance of a power of two, others at random), or groups of about k, at a time
static void large(int n, int K, bool pairs){
	World w; w.inputs(n);
	ev("inputs", "", n, V(), V(), 0);
	if (pairs) w.post("amo", 1, upto(n), V()); else w.post("amk", K, upto(n), V());
	if (pairs){
		V none, sat, unsat;
		if (!w.ask(none, none)) unsat.push_back(0);
		for (int a = 1; a <= n; a++){
			if (!w.ask(V{a}, none)) unsat.push_back(a);
			for (int b = a + 1; b <= n; b++) if (((b - a) & (b - a - 1)) == 0 || rn(n) < 12) if (sat.size() < 8 && w.ask(V{a, b}, none)) { sat.push_back(a); sat.push_back(b); }
		}
		ev("pairs", "", 0, sat, unsat, 0);
	}
	for (int q = 0; q < 30; q++){
		V t = w.pick(std::min(n, std::max(0, K - 1 + rn(4))), upto(n)), f;
		std::set<int> ts(t.begin(), t.end());
		for (int x = 1; x <= n; x++) if (!ts.count(x) && rn(2)) f.push_back(x);
		ev("bigask", "", K, t, f, w.ask(t, f));
	}
}

int main(int argc, char ** argv){
	std::string mode = argv[1]; int seed = atoi(argv[2]), n = atoi(argv[3]);
	g.seed(seed);
	out = fopen(argv[5], "w");
	static const int S[] = {2, 9, 100, 200, 254, 255, 256, 257, 258, 270, 300, 350, 362, 363, 384, 400, 500, 511, 512, 513, 600, 725};
	for (int h = 0; h < n; h++){
		fprintf(out, "["); firstE = true;
		if (mode == "small") small();
		else if (h % 3 == 2) large(2 + rn(60), rn(9), false);
		else large(rn(2) ? S[rn(sizeof S / sizeof *S)] : 200 + rn(500), 1, true);
		fprintf(out, "]\n");
	}
	fclose(out);
}
