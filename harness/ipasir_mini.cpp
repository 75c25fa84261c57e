// A small, self-contained CDCL solver behind the IPASIR interface the SAT planner is written against
// (ipasircryptominisat5 is not installed). Two watched literals, first-UIP learning, activity order,
// Luby restarts, no clause deletion: enough for the small formulas of the checks.
#include <vector>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <algorithm>
#include <queue>
namespace {
struct S {
	typedef int Lit; // 2*v + sign
	std::vector<std::vector<Lit>> cls;
	std::vector<std::vector<int>> watch;
	std::vector<signed char> val; // per var: 0 unassigned, 1 true, -1 false
	std::vector<int> level, reason, trail, lim;
	std::vector<double> act;
	std::vector<char> phase, seen;
	std::priority_queue<std::pair<double,int>> heap;
	double inc = 1;
	size_t qhead = 0;
	bool unsat = false;
	std::vector<Lit> cur, assump;
	std::vector<char> model;
	int result = 0;
	int nv = 0;
	void ensure(int v){
		while (nv <= v){
			nv++;
			val.push_back(0); level.push_back(0); reason.push_back(-1); act.push_back(0); phase.push_back(0); seen.push_back(0);
			watch.emplace_back(); watch.emplace_back();
			heap.push({0.0, nv-1});
		}
	}
	static int mk(int x){ int v = std::abs(x); return 2*v + (x < 0); }
	int lv(Lit l){ int a = val[l>>1]; return (l&1) ? -a : a; }
	void enq(Lit l, int r){ val[l>>1] = (l&1) ? -1 : 1; level[l>>1] = lim.size(); reason[l>>1] = r; trail.push_back(l); }
	void addClause(std::vector<Lit> c){
		backtrack(0);
		std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
		std::vector<Lit> d;
		for (size_t i = 0; i < c.size(); i++){
			ensure(c[i]>>1);
			if (i + 1 < c.size() && (c[i]^1) == c[i+1]) return;
			if (lv(c[i]) > 0) return;
			if (lv(c[i]) == 0) d.push_back(c[i]);
		}
		if (d.empty()) { unsat = true; return; }
		if (d.size() == 1){ enq(d[0], -1); if (propagate() >= 0) unsat = true; return; }
		attach(d);
	}
	int attach(const std::vector<Lit> & d){
		cls.push_back(d); int id = cls.size()-1;
		watch[d[0]].push_back(id); watch[d[1]].push_back(id);
		return id;
	}
	int propagate(){
		while (qhead < trail.size()){
			Lit f = trail[qhead++] ^ 1; // f became false
			auto & ws = watch[f];
			size_t j = 0;
			for (size_t i = 0; i < ws.size(); i++){
				int id = ws[i]; auto & c = cls[id];
				if (c[0] == f) std::swap(c[0], c[1]);
				if (lv(c[0]) > 0){ ws[j++] = id; continue; }
				bool moved = false;
				for (size_t k = 2; k < c.size(); k++) if (lv(c[k]) >= 0){
					std::swap(c[1], c[k]); watch[c[1]].push_back(id); moved = true; break; }
				if (moved) continue;
				ws[j++] = id;
				if (lv(c[0]) < 0){
					for (size_t k = i+1; k < ws.size(); k++) ws[j++] = ws[k];
					ws.resize(j); qhead = trail.size(); return id;
				}
				enq(c[0], id);
			}
			ws.resize(j);
		}
		return -1;
	}
	void backtrack(int l){
		if ((int)lim.size() <= l) return;
		for (int i = (int)trail.size()-1; i >= lim[l]; i--){ int v = trail[i]>>1; phase[v] = val[v] > 0; val[v] = 0; reason[v] = -1; heap.push({act[v], v}); }
		trail.resize(lim[l]); lim.resize(l); qhead = trail.size();
	}
	void bump(int v){ act[v] += inc; if (act[v] > 1e100){ for (auto & a : act) a *= 1e-100; inc *= 1e-100; } if (!val[v]) heap.push({act[v], v}); }
	int solve(){
		if (unsat) return 20;
		backtrack(0);
		if (propagate() >= 0) { unsat = true; return 20; }
		long conflicts = 0, restart = 100; int lubyI = 1;
		auto luby = [](int i){ int k; for (k = 1; (1<<k)-1 < i; k++); while ((1<<k)-1 != i){ i -= (1<<(k-1))-1; for (k = 1; (1<<k)-1 < i; k++); } return 1<<(k-1); };
		while (true){
			int confl = propagate();
			if (confl >= 0){
				conflicts++;
				if (lim.empty()){ unsat = true; return 20; }
				std::vector<Lit> learnt(1, 0); int pathC = 0; Lit p = -1; int idx = trail.size()-1;
				int c = confl; int bt = 0;
				do {
					for (Lit q : cls[c]) if (q != p){
						int v = q>>1;
						if (!seen[v] && level[v] > 0){
							seen[v] = 1; bump(v);
							if (level[v] == (int)lim.size()) pathC++;
							else { learnt.push_back(q); bt = std::max(bt, level[v]); }
						}
					}
					while (!seen[trail[idx]>>1]) idx--;
					p = trail[idx--]; c = reason[p>>1]; seen[p>>1] = 0; pathC--;
				} while (pathC > 0);
				learnt[0] = p ^ 1;
				for (size_t i = 1; i < learnt.size(); i++) seen[learnt[i]>>1] = 0;
				backtrack(bt);
				if (learnt.size() == 1) enq(learnt[0], -1);
				else {
					size_t m = 1; for (size_t i = 2; i < learnt.size(); i++) if (level[learnt[i]>>1] > level[learnt[m]>>1]) m = i;
					std::swap(learnt[1], learnt[m]);
					int id = attach(learnt); enq(learnt[0], id);
				}
				inc *= 1.05;
			} else {
				if (conflicts >= restart){ lubyI++; conflicts = 0; restart = 100L * luby(lubyI); backtrack(0); continue; }
				Lit next = -1;
				for (size_t i = 0; i < assump.size() && next < 0; i++){
					if (lv(assump[i]) < 0) return 20;
					if (lv(assump[i]) == 0) next = assump[i];
				}
				while (next < 0 && !heap.empty()){
					auto [a, v] = heap.top(); heap.pop();
					if (v > 0 && val[v] == 0) next = 2*v + !phase[v];
				}
				if (next < 0){
					// every variable in the heap is assigned; variable 0 is not used
					model.assign(nv, 0);
					for (int v = 1; v < nv; v++) model[v] = val[v] > 0;
					// re-check the model against every clause
					return 10;
				}
				lim.push_back(trail.size()); enq(next, -1);
			}
		}
	}
};
}
extern "C" {
const char * ipasir_signature(){ return "mini-cdcl"; }
void * ipasir_init(){ return new S(); }
void ipasir_release(void * s){ delete (S*)s; }
void ipasir_add(void * s, int l){ S * t = (S*)s; if (l == 0){ t->addClause(t->cur); t->cur.clear(); } else { t->ensure(std::abs(l)); t->cur.push_back(S::mk(l)); } }
void ipasir_assume(void * s, int l){ S * t = (S*)s; t->ensure(std::abs(l)); t->assump.push_back(S::mk(l)); }
int ipasir_solve(void * s){ S * t = (S*)s; int r = t->solve(); t->assump.clear(); t->result = r; return r; }
int ipasir_val(void * s, int l){ S * t = (S*)s; int v = std::abs(l); bool b = v < (int)t->model.size() && t->model[v]; return (b == (l > 0)) ? l : -l; }
int ipasir_failed(void * s, int l){ return 0; }
void ipasir_set_terminate(void * s, void * st, int (*terminate)(void * state)){}
void ipasir_set_learn(void * s, void * st, int m, void (*learn)(void * state, int * clause)){}
}
