// A register machine over CUDD: every operation is logged with its operands (register numbers and integers) and
// the function of its result, read off the diagram by our own traversal.  One JSON object per event.
#pragma once
extern "C" {
#include "util.h"
#include "cuddInt.h"
#include "epd.h"
#include "cudd.h"
#include "dddmp.h"
}
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <random>
#include <functional>
#include <algorithm>
#include <unistd.h>
using std::vector; using std::string; using std::pair;
typedef vector<int> V;
static std::mt19937 rng;
static int R(int k) { return k <= 0 ? 0 : (int)(rng() % (unsigned)k); }
static bool P(int pct) { return R(100) < pct; }
static const int INF = 999999;

struct Ev {
  string o; int d = 0; V a, x; vector<V> r; V y; int i = -1;
};
struct Mach {
  DdManager* dd = nullptr; int n = 0; int M = 0; vector<DdNode*> reg; V id; FILE* out = stdout; bool first = true;
  vector<V> val; // last known function of each register (0-based)
  std::map<DdNode*, int> ids;
  int idOf(DdNode* f) { auto it = ids.find(f); if (it != ids.end()) return it->second; int k = ids.size() + 1; ids[f] = k; return k; }
  // the function of a BDD: bit i of the minterm is variable i
  V bdd(DdNode* f, DdManager* m = nullptr) {
    V t(M);
    for (int k = 0; k < M; k++) {
      int c = Cudd_IsComplement(f); DdNode* g = Cudd_Regular(f);
      while (!cuddIsConstant(g)) {
        if ((k >> g->index) & 1) g = cuddT(g); else { DdNode* e = cuddE(g); if (Cudd_IsComplement(e)) { c ^= 1; e = Cudd_Regular(e); } g = e; }
      }
      t[k] = c ? 0 : 1;
      if (!c && cuddV(g) != 1.0) t[k] = -7; // a BDD has only the constant one (and its complement)
    }
    return t;
  }
  static int num(double v) { if (v >= CUDD_CONST_INDEX + 1e300 || std::isinf(v)) return v > 0 ? INF : -INF; if (v >= 1e300) return INF; if (v <= -1e300) return -INF; double r = std::floor(v + 0.5); if (std::fabs(v - r) > 1e-6 || std::fabs(r) > 900000) return INF + 1; return (int)r; }
  V add(DdNode* f, double scale = 1) {
    V t(M);
    for (int k = 0; k < M; k++) {
      DdNode* g = f; if (Cudd_IsComplement(g)) { t[k] = INF + 2; continue; }
      while (!cuddIsConstant(g)) { g = ((k >> g->index) & 1) ? cuddT(g) : cuddE(g); if (Cudd_IsComplement(g)) break; }
      t[k] = Cudd_IsComplement(g) ? INF + 2 : num(cuddV(g) * ((std::fabs(cuddV(g)) < 1e100) ? scale : 1));
    }
    return t;
  }
  // a ZDD: the family of sets, as a characteristic vector over bit masks of ZDD variables (0..zn-1)
  V zdd(DdNode* f, int zn) {
    V t(1 << zn);
    for (int k = 0; k < (1 << zn); k++) {
      DdNode* g = f; int level = 0; 
      if (Cudd_IsComplement(g)) { t[k] = -7; continue; }
      int left = k; 
      while (!cuddIsConstant(g)) { if ((k >> g->index) & 1) { left &= ~(1 << g->index); g = cuddT(g); } else g = cuddE(g); if (Cudd_IsComplement(g)) { left = -1; break; } }
      t[k] = left == -1 ? -7 : (left == 0 && g == DD_ONE(dd)) ? 1 : 0;
    }
    return t;
  }
  static void pv(FILE* f, const V& v) { fputc('[', f); for (size_t i = 0; i < v.size(); i++) fprintf(f, i ? ",%d" : "%d", v[i]); fputc(']', f); }
  void emit(const Ev& e) {
    fprintf(out, "%s{\"o\":\"%s\",\"d\":%d,\"a\":", first ? "" : ",", e.o.c_str(), e.d); first = false;
    pv(out, e.a); fprintf(out, ",\"x\":"); pv(out, e.x); fprintf(out, ",\"r\":[");
    for (size_t i = 0; i < e.r.size(); i++) { if (i) fputc(',', out); pv(out, e.r[i]); }
    fprintf(out, "],\"y\":"); pv(out, e.y); fprintf(out, ",\"i\":%d}", e.i);
  }
  vector<DdNode*> projs;
  DdNode* var(int i) { return projs.empty() ? Cudd_bddIthVar(dd, i) : projs[i]; }
  DdNode* cube(int mask) { // positive cube, referenced
    DdNode* c = DD_ONE(dd); Cudd_Ref(c);
    for (int i = n - 1; i >= 0; i--) if ((mask >> i) & 1) { DdNode* t = Cudd_bddAnd(dd, var(i), c); Cudd_Ref(t); Cudd_RecursiveDeref(dd, c); c = t; }
    return c;
  }
  DdNode* cubeP(int mask, int ph) { // cube with phases, referenced
    DdNode* c = DD_ONE(dd); Cudd_Ref(c);
    for (int i = n - 1; i >= 0; i--) if ((mask >> i) & 1) { DdNode* t = Cudd_bddAnd(dd, Cudd_NotCond(var(i), !((ph >> i) & 1)), c); Cudd_Ref(t); Cudd_RecursiveDeref(dd, c); c = t; }
    return c;
  }
  DdNode* addCube(int mask) {
    DdNode* c = DD_ONE(dd); Cudd_Ref(c);
    for (int i = n - 1; i >= 0; i--) if ((mask >> i) & 1) { DdNode* v = Cudd_addIthVar(dd, i); Cudd_Ref(v); DdNode* t = Cudd_addApply(dd, Cudd_addTimes, v, c); Cudd_Ref(t); Cudd_RecursiveDeref(dd, c); Cudd_RecursiveDeref(dd, v); c = t; }
    return c;
  }
  // build a function by Shannon expansion over the variables 0..n-1, referenced
  DdNode* build(const V& t, int i, int base) {
    if (i < 0) { DdNode* c = t[base] ? DD_ONE(dd) : Cudd_Not(DD_ONE(dd)); Cudd_Ref(c); return c; }
    DdNode* h = build(t, i - 1, base | (1 << i)); DdNode* l = build(t, i - 1, base);
    DdNode* x = var(i); DdNode* f = Cudd_bddIte(dd, x, h, l); Cudd_Ref(f); Cudd_RecursiveDeref(dd, h); Cudd_RecursiveDeref(dd, l); return f;
  }
  DdNode* buildAdd(const V& t, int i, int base) {
    if (i < 0) { DdNode* c = t[base] == INF ? DD_PLUS_INFINITY(dd) : t[base] == -INF ? DD_MINUS_INFINITY(dd) : Cudd_addConst(dd, t[base]); Cudd_Ref(c); return c; }
    DdNode* h = buildAdd(t, i - 1, base | (1 << i)); DdNode* l = buildAdd(t, i - 1, base);
    DdNode* x = Cudd_addIthVar(dd, i); Cudd_Ref(x); DdNode* f = Cudd_addIte(dd, x, h, l); Cudd_Ref(f); Cudd_RecursiveDeref(dd, h); Cudd_RecursiveDeref(dd, l); Cudd_RecursiveDeref(dd, x); return f;
  }
  V randFun() {
    V t(M);
    int k = R(7);
    if (k == 0) for (auto& b : t) b = R(2);
    else if (k == 1) for (auto& b : t) b = R(8) == 0;
    else if (k == 2) for (auto& b : t) b = R(8) != 0;
    else if (k == 3) { int m = R(M), p = R(M); for (int i = 0; i < M; i++) t[i] = (i & m) == (p & m); }      // a cube
    else if (k == 4) { V s(n + 1); for (auto& b : s) b = R(2); int m = R(M); for (int i = 0; i < M; i++) t[i] = s[__builtin_popcount(i & m)]; } // symmetric
    else if (k == 5) { int m = R(M); V u(M); for (auto& b : u) b = R(2); for (int i = 0; i < M; i++) t[i] = u[i & m]; } // few variables
    else { V c(1 + R(4)); vector<int> ph(c.size()); for (size_t j = 0; j < c.size(); j++) { c[j] = (1 << R(n)) | (1 << R(n)) | (R(2) ? 1 << R(n) : 0); ph[j] = R(M); }
      bool dnf = R(2); for (int i = 0; i < M; i++) { bool v = !dnf; for (size_t j = 0; j < c.size(); j++) { bool all = (i & c[j]) == (ph[j] & c[j]), any = ((i ^ ~ph[j]) & c[j]) != 0; if (dnf && all) v = true; if (!dnf && !any) v = false; } t[i] = v; } }
    return t;
  }
  V order() { V p; for (int l = 0; l < n; l++) p.push_back(0); for (int i = 0; i < n; i++) p[Cudd_ReadPerm(dd, i)] = i; return p; }
};
