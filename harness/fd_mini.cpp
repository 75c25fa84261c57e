// A classical planner that stands in for Fast Downward: reads an FDR task (output format 3) from stdin, searches it
// exhaustively and writes a plan. FD_MODE: bfs, ucs or rand:<seed> (depth-first in random order). Exit 0: plan written, 12: unsolvable,
// 23: too many states.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <queue>
#include <random>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;
struct Eff { vector<pair<int,int>> cond; int var, pre, post; };
struct Op { string name; vector<pair<int,int>> prevail; vector<Eff> eff; int cost; };
struct H { size_t operator()(const vector<int>& v) const { size_t h = 1469598103934665603ull; for (int x : v) h = (h ^ (unsigned)x) * 1099511628211ull; return h; } };
static void die(const string& s) { cout << "FDMINI bad input: " << s << endl; exit(37); }
static string line() { string l; do { if (!getline(cin, l)) die("end of file"); } while (l.find_first_not_of(" \r\t") == string::npos); while (!l.empty() && (l.back() == '\r' || l.back() == ' ')) l.pop_back(); return l; }
static void expect(const string& w) { string l = line(); if (l != w) die("'" + l + "' instead of " + w); }
static vector<int> ints() { string l = line(); vector<int> r; const char* p = l.c_str(); char* e; for (;;) { long x = strtol(p, &e, 10); if (e == p) break; r.push_back(x); p = e; } return r; }
static int num() { auto v = ints(); if (v.size() != 1) die("a number expected"); return v[0]; }
int main(int argc, char** argv) {
  string plan = "sas_plan", mode = getenv("FD_MODE") ? getenv("FD_MODE") : "bfs";
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--internal-plan-file")) plan = argv[i + 1];
  size_t limit = getenv("FD_LIMIT") ? atoll(getenv("FD_LIMIT")) : 300000;
  expect("begin_version"); if (num() != 3) die("version"); expect("end_version");
  expect("begin_metric"); int metric = num(); expect("end_metric");
  int nv = num(); vector<int> dom;
  for (int i = 0; i < nv; i++) { expect("begin_variable"); line(); if (num() != -1) die("axiom layer"); int d = num(); if (d < 1) die("domain"); dom.push_back(d); for (int j = 0; j < d; j++) line(); expect("end_variable"); }
  auto fact = [&](int v, int x) { if (v < 0 || v >= nv || x < 0 || x >= dom[v]) die("fact " + to_string(v) + "=" + to_string(x)); };
  vector<vector<pair<int,int>>> groups; int nm = num(); for (int i = 0; i < nm; i++) { expect("begin_mutex_group"); int k = num(); groups.emplace_back(); for (int j = 0; j < k; j++) { auto p = ints(); if (p.size() != 2) die("mutex"); fact(p[0], p[1]); groups.back().push_back({p[0], p[1]}); } expect("end_mutex_group"); }
  expect("begin_state"); vector<int> init; for (int i = 0; i < nv; i++) { init.push_back(num()); fact(i, init[i]); } expect("end_state");
  vector<pair<int,int>> goal; expect("begin_goal"); int ng = num(); for (int i = 0; i < ng; i++) { auto p = ints(); if (p.size() != 2) die("goal"); fact(p[0], p[1]); goal.push_back({p[0], p[1]}); } expect("end_goal");
  int no = num(); vector<Op> ops;
  for (int i = 0; i < no; i++) {
    Op o; expect("begin_operator"); o.name = line(); int np = num();
    for (int j = 0; j < np; j++) { auto p = ints(); if (p.size() != 2) die("prevail"); fact(p[0], p[1]); o.prevail.push_back({p[0], p[1]}); }
    int ne = num();
    for (int j = 0; j < ne; j++) {
      auto p = ints(); if (p.size() < 4 || p.size() != size_t(4 + 2 * p[0])) die("effect of " + o.name);
      Eff e; int k = p[0]; for (int c = 0; c < k; c++) { fact(p[1 + 2 * c], p[2 + 2 * c]); e.cond.push_back({p[1 + 2 * c], p[2 + 2 * c]}); }
      e.var = p[1 + 2 * k]; e.pre = p[2 + 2 * k]; e.post = p[3 + 2 * k]; fact(e.var, e.post); if (e.pre != -1) fact(e.var, e.pre);
      o.eff.push_back(e);
    }
    o.cost = num(); if (!metric) o.cost = 1; expect("end_operator"); ops.push_back(o);
  }
  if (num() != 0) die("axioms");
  auto appl = [&](const Op& o, const vector<int>& s) {
    for (auto& p : o.prevail) if (s[p.first] != p.second) return false;
    for (auto& e : o.eff) if (e.pre != -1 && s[e.var] != e.pre) return false;
    return true; };
  auto succ = [&](const Op& o, const vector<int>& s) {
    vector<int> t = s; 
    for (auto& e : o.eff) { bool f = true; for (auto& c : e.cond) f &= s[c.first] == c.second; if (f) t[e.var] = e.post; }
    return t; };
  auto isgoal = [&](const vector<int>& s) { for (auto& g : goal) if (s[g.first] != g.second) return false; return true; };
  vector<vector<int>> st; vector<int> par, via; vector<long> g; unordered_map<vector<int>, int, H> id;
  auto add = [&](const vector<int>& s, int p, int o, long c) { auto it = id.find(s); if (it != id.end()) { if (c < g[it->second]) { g[it->second] = c; par[it->second] = p; via[it->second] = o; return it->second; } return -1; }
    for (auto& m : groups) { int c = 0; for (auto& p : m) c += s[p.first] == p.second; if (c > 1) { cout << "FDMINI mutex group violated in a reachable state" << endl; groups.clear(); break; } }
    int n = st.size(); id[s] = n; st.push_back(s); par.push_back(p); via.push_back(o); g.push_back(c); return n; };
  mt19937 rnd(mode.rfind("rand:", 0) == 0 ? atoi(mode.c_str() + 5) : 1);
  int found = -1;
  if (mode == "bfs" || mode == "ucs") {
    priority_queue<pair<long,int>, vector<pair<long,int>>, greater<pair<long,int>>> q; q.push({0, add(init, -1, -1, 0)});
    while (!q.empty()) {
      auto [d, n] = q.top(); q.pop(); if (d > g[n]) continue;
      if (isgoal(st[n])) { found = n; break; }
      if (st.size() > limit) { cout << "FDMINI limit" << endl; exit(23); }
      for (int o = 0; o < no; o++) if (appl(ops[o], st[n])) { vector<int> t = succ(ops[o], st[n]); int m = add(t, n, o, g[n] + (mode == "ucs" ? ops[o].cost : 1)); if (m >= 0) q.push({g[m], m}); }
    }
  } else {
    vector<int> stack = {add(init, -1, -1, 0)};
    while (!stack.empty()) {
      int n = stack.back(); stack.pop_back();
      if (isgoal(st[n])) { found = n; break; }
      if (st.size() > limit) { cout << "FDMINI limit" << endl; exit(23); }
      vector<int> a; for (int o = 0; o < no; o++) if (appl(ops[o], st[n])) a.push_back(o);
      shuffle(a.begin(), a.end(), rnd);
      for (int o : a) { vector<int> t = succ(ops[o], st[n]); if (!id.count(t)) stack.push_back(add(t, n, o, g[n] + 1)); }
    }
  }
  if (found < 0) { cout << "FDMINI unsolvable states=" << st.size() << endl; exit(12); }
  vector<int> seq; for (int n = found; par[n] >= 0; n = par[n]) seq.push_back(via[n]);
  reverse(seq.begin(), seq.end());
  ofstream f(plan); long c = 0; for (int o : seq) { f << "(" << ops[o].name << ")\n"; c += ops[o].cost; }
  f << "; cost = " << c << " (" << (metric ? "general cost" : "unit cost") << ")\n";
  cout << "FDMINI solved cost=" << c << " steps=" << seq.size() << " states=" << st.size() << endl;
  return 0;
}
