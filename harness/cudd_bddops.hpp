// The BDD operations of the machine.
#pragma once
#include "cudd_mach.hpp"

static const Cudd_ReorderingType METH[] = {CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE,
  CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_SYMM_SIFT_CONV, CUDD_REORDER_WINDOW2, CUDD_REORDER_WINDOW3, CUDD_REORDER_WINDOW4,
  CUDD_REORDER_WINDOW2_CONV, CUDD_REORDER_WINDOW3_CONV, CUDD_REORDER_WINDOW4_CONV, CUDD_REORDER_GROUP_SIFT, CUDD_REORDER_GROUP_SIFT_CONV,
  CUDD_REORDER_LAZY_SIFT, CUDD_REORDER_ANNEALING, CUDD_REORDER_GENETIC, CUDD_REORDER_EXACT};
static const int NMETH = sizeof(METH) / sizeof(METH[0]);

struct Bdd : Mach {
  vector<pair<string, std::function<void()>>> ops;
  int slots, cache; bool autodyn = false; int nvars = 0; // variables that exist so far
  vector<DdNode*> proj; bool linear = false, groups = false;
  using Mach::num;
  virtual ~Bdd() {}
  int nr() { return reg.size(); }
  V drawn; // the registers drawn by the operation that runs
  int a() { int q = R(nr()); drawn.push_back(q); return q; }
  // An operation is a number into ops and a seed for its draws: the same seed gives another operation the same operands
  // and the same variables, so that what one operation left in the cache meets a different one.
  unsigned lastSeed = 1; int lastOp = 0;
  void draw(const std::function<bool(int)>& ok) {
    int j = R(ops.size()); unsigned s = P(60) ? lastSeed : rng(); if (!ok(j)) return draw(ok);
    play(j, s);
  }
  void play(int j, unsigned s) {
    std::mt19937 keep = rng; rng.seed(s); drawn.clear(); lastSeed = s; lastOp = j; ops[j].second(); rng = keep;
  }
  virtual void clear(int d) { Cudd_RecursiveDeref(dd, reg[d]); reg[d] = zeroN(); Cudd_Ref(reg[d]); id[d] = idOf(reg[d]); Ev e; e.o = "zero"; e.d = d + 1; e.r = {fun(reg[d])}; e.i = id[d]; val[d] = e.r[0]; emit(e); }
  virtual V randVal() { V t = randFun(); if (nvars < n) for (int m = 0; m < M; m++) t[m] = t[m & ((1 << nvars) - 1)]; return t; }
  virtual DdNode* make(const V& t) { return build(t, nvars - 1, 0); } // referenced
  virtual void drop(DdNode* f) { Cudd_RecursiveDeref(dd, f); }
  virtual void store(int d, const V& t, DdNode* f) { Cudd_Deref(f); put("load", d, {}, t, f); }
  // a new function into register d, if possible at the given address
  void loadAt(int d, DdNode* at = nullptr) {
    for (int k = 0;; k++) {
      V t = randVal(); DdNode* f = make(t);
      if (!at || Cudd_Regular(f) == at || k == 25) return store(d, t, f);
      drop(f); cuddGarbageCollect(dd, 1);
    }
  }
  // some operands of the last operation die and are collected, others take their place, and the operation runs again
  void stale() {
    V q = drawn; if (q.empty()) return; int j = lastOp; unsigned s = lastSeed; 
    V gone; for (size_t i = 0; i < q.size(); i++) if (P(50)) gone.push_back(q[i]); if (gone.empty()) gone.push_back(q[R(q.size())]);
    if (P(70)) gone.resize(1);
    vector<DdNode*> at; for (int d : gone) at.push_back(cuddIsConstant(Cudd_Regular(reg[d])) ? nullptr : Cudd_Regular(reg[d]));
    for (int d : gone) clear(d);
    if (P(80)) { cuddGarbageCollect(dd, 1); all("gc"); }
    for (size_t i = 0; i < gone.size(); i++) loadAt(gone[i], at[i]);
    play(j, s);
  }

  void start(int n_, int k, int nv) {
    n = n_; M = 1 << n; nvars = nv;
    static const int SL[] = {2, 8, 32, 256}; static const int CA[] = {2, 16, 64, 1024, 262144};
    slots = SL[R(4)]; cache = CA[R(5)];
    dd = Cudd_Init(0, 0, slots, cache, 0);
    for (int i = 0; i < nv; i++) Cudd_bddIthVar(dd, i);
    if (P(50)) { V p(nv); for (int i = 0; i < nv; i++) p[i] = i; std::shuffle(p.begin(), p.end(), rng); if (nv) Cudd_ShuffleHeap(dd, p.data()); }
    if (P(30)) Cudd_SetMaxCacheHard(dd, 64);
    if (P(20)) Cudd_SetMinHit(dd, 1 + R(60));
    if (P(20)) Cudd_SetLooseUpTo(dd, 1 + R(100));
    if (P(50)) Cudd_SetSiftMaxVar(dd, 1 + R(8));
    if (P(50)) Cudd_SetSiftMaxSwap(dd, 1 + R(40));
    if (P(30)) Cudd_SetMaxGrowth(dd, 1.0 + R(10) / 10.0);
    if (P(30)) Cudd_SetGroupcheck(dd, (Cudd_AggregationType)(R(3) == 0 ? CUDD_NO_CHECK : R(2) ? CUDD_GROUP_CHECK5 : CUDD_GROUP_CHECK7));
    if (P(30)) Cudd_SetPopulationSize(dd, 4 + R(8));
    Cudd_SetStdout(dd, fopen("/dev/null", "w"));
    reg.assign(k, nullptr); id.assign(k, 0); val.assign(k, V(M, 0));
    for (int q = 0; q < k; q++) { reg[q] = zeroN(); Cudd_Ref(reg[q]); id[q] = idOf(reg[q]); }
    if (linear) for (int i = 0; i < n; i++) { proj.push_back(Cudd_bddIthVar(dd, i)); Cudd_Ref(proj[i]); projs = proj; }
    all("init", {n, k});
  }
  virtual DdNode* zeroN() { return Cudd_Not(DD_ONE(dd)); }
  virtual V fun(DdNode* f) { return linear ? lin(f) : bdd(f); }
  // with linear sifting the nodes test combinations of the variables: the transformed space is read back through the
  // and the functions of the original variables, kept from the start, tell which
  V lin(DdNode* f) {
    V r = bdd(f), t(M, -9); vector<V> x; for (auto p : proj) x.push_back(bdd(p));
    for (int k = 0; k < M; k++) { int m = 0; for (int i = 0; i < n; i++) m |= x[i][k] << i; t[m] = r[k]; }
    return t;
  }
  int consistent() { // 1 if the library's own checks find nothing and the order is a permutation
    int ok = 1;
    if (Cudd_DebugCheck(dd) != 0) ok = 0;
    if (Cudd_CheckKeys(dd) != 0) ok = 0;
    std::set<int> s; for (int i = 0; i < Cudd_ReadSize(dd); i++) { int p = Cudd_ReadPerm(dd, i); if (p < 0 || p >= Cudd_ReadSize(dd) || Cudd_ReadInvPerm(dd, p) != i) ok = 0; s.insert(p); }
    if ((int)s.size() != Cudd_ReadSize(dd)) ok = 0;
    return ok;
  }
  // all registers at once: after anything that must not change them
  void all(const char* o, V x = {}) {
    Ev e; e.o = o; e.x = x; for (int q = 0; q < nr(); q++) { e.r.push_back(fun(reg[q])); e.a.push_back(idOf(reg[q])); }
    e.y = {consistent()}; emit(e);
  }
  void noise(bool heavy) {
    int k = R(heavy ? 9 : 6);
    if (k == 0) { cuddGarbageCollect(dd, 1); all("gc"); }
    else if (k == 1) { int m = R(NMETH); if (n > 6 && (METH[m] == CUDD_REORDER_EXACT || METH[m] == CUDD_REORDER_ANNEALING)) m = 2; int rc = Cudd_ReduceHeap(dd, METH[m], R(2) ? 0 : R(20)); all("reorder", {(int)METH[m], rc}); }
    else if (k == 2 && !groups) { V p = perm(nvars); int rc = Cudd_ShuffleHeap(dd, p.data()); V x = {rc}; all("shuffle", x); bool same = true; for (int l = 0; l < nvars; l++) if (Cudd_ReadInvPerm(dd, l) != p[l]) same = false; Ev e; e.o = "order"; e.x = p; for (int l = 0; l < nvars; l++) e.y.push_back(Cudd_ReadInvPerm(dd, l)); emit(e); }
    else if (k == 3) { autodyn = !autodyn; if (autodyn) { int m = R(14); Cudd_AutodynEnable(dd, METH[m]); } else Cudd_AutodynDisable(dd); }
    else if (k == 4) { int d = a(); Cudd_RecursiveDeref(dd, reg[d]); reg[d] = R(2) ? DD_ONE(dd) : zeroN(); Cudd_Ref(reg[d]); id[d] = idOf(reg[d]); Ev e; e.o = reg[d] == DD_ONE(dd) ? "one" : "zero"; e.d = d + 1; e.r = {fun(reg[d])}; e.i = id[d]; val[d] = e.r[0]; emit(e); }
    else if (k == 5) { load(); }
    else if (k == 6) { if (nvars < n) { int lev = R(nvars + 1); DdNode* v = R(2) ? Cudd_bddNewVarAtLevel(dd, lev) : Cudd_bddNewVar(dd); int ix = v ? (int)v->index : -1; nvars++; all("newvar"); put("var", a(), {}, {ix}, v); } }
    else if (k == 7 && !linear) { // group of adjacent variables, kept together by sifting
      if (groups) { Cudd_FreeTree(dd); groups = false; }
      else if (nvars >= 4) { int lo = R(nvars - 2), sz = 2 + R(nvars - lo - 1); if (lo + sz > nvars) sz = nvars - lo; int inv = Cudd_ReadInvPerm(dd, lo); (void)inv; Cudd_MakeTreeNode(dd, Cudd_ReadInvPerm(dd, lo), sz, R(2) ? MTR_DEFAULT : MTR_FIXED); groups = true; }
      all("group"); }
    else if (k == 8) { int v = R(nvars); if (R(2)) Cudd_bddBindVar(dd, v); else Cudd_bddUnbindVar(dd, v); all("bind"); }
    if (autodyn) Cudd_SetNextReordering(dd, std::max(11u, Cudd_ReadKeys(dd) - Cudd_ReadDead(dd) + R(12)));
  }
  V perm(int k) { V p(k); for (int i = 0; i < k; i++) p[i] = i; std::shuffle(p.begin(), p.end(), rng); return p; }
  virtual void load() { loadAt(a()); }
  void put(const char* o, int d, V aa, V x, DdNode* r, V y = {}) {
    Ev e; e.o = o; e.x = x; for (int q : aa) e.a.push_back(q + 1);
    if (!r) { e.y = {-1}; e.d = 0; emit(e); return; }
    Cudd_Ref(r); e.r = {fun(r)}; e.y = y; e.i = idOf(r);
    if (d >= 0) { e.d = d + 1; Cudd_RecursiveDeref(dd, reg[d]); reg[d] = r; id[d] = e.i; val[d] = e.r[0]; emit(e); }
    else { emit(e); Cudd_RecursiveDeref(dd, r); }
    if (autodyn) Cudd_SetNextReordering(dd, std::max(11u, Cudd_ReadKeys(dd) - Cudd_ReadDead(dd) + R(12)));
  }
  void put2(const char* o, V aa, V x, vector<DdNode*> rs, V y = {}) { // results already referenced, not stored
    Ev e; e.o = o; e.x = x; for (int q : aa) e.a.push_back(q + 1);
    for (auto r : rs) e.r.push_back(fun(r));
    e.y = y; emit(e); for (auto r : rs) Cudd_RecursiveDeref(dd, r);
  }
  void num(const char* o, V aa, V x, V y, int d = 0) { Ev e; e.o = o; e.x = x; e.y = y; for (int q : aa) e.a.push_back(q + 1); emit(e); }
  void addop(const char* n, std::function<void()> f) { ops.push_back({n, f}); }
  int lim() { static const int L[] = {1, 2, 3, 5, 8, 20, 1000000}; return L[R(7)]; }
  int supp(const V& t) { int s = 0; for (int i = 0; i < n; i++) for (int m = 0; m < M; m++) if (t[m] != t[m ^ (1 << i)]) { s |= 1 << i; break; } return s; }
  static int cnt(const V& t) { int s = 0; for (int b : t) s += b != 0; return s; }
  bool nonzero(int q) { return cnt(val[q]) > 0; }

  void basic() {
    typedef DdNode* (*F2)(DdManager*, DdNode*, DdNode*);
    static const pair<const char*, F2> B[] = {{"and", Cudd_bddAnd}, {"or", Cudd_bddOr}, {"nand", Cudd_bddNand}, {"nor", Cudd_bddNor}, {"xor", Cudd_bddXor}, {"xnor", Cudd_bddXnor}};
    for (auto& b : B) { auto f = b.second; auto nm = b.first; addop(nm, [=] { int p = a(), q = a(); put(nm, a(), {p, q}, {}, f(dd, reg[p], reg[q])); }); }
    typedef DdNode* (*F2L)(DdManager*, DdNode*, DdNode*, unsigned);
    static const pair<const char*, F2L> BL[] = {{"andLimit", Cudd_bddAndLimit}, {"orLimit", Cudd_bddOrLimit}, {"xnorLimit", Cudd_bddXnorLimit}};
    for (auto& b : BL) { auto f = b.second; auto nm = b.first; addop(nm, [=] { int p = a(), q = a(), l = lim(); put(nm, a(), {p, q}, {l}, f(dd, reg[p], reg[q], l)); }); }
    addop("ite", [=] { int p = a(), q = a(), s = a(); put("ite", a(), {p, q, s}, {}, Cudd_bddIte(dd, reg[p], reg[q], reg[s])); });
    addop("not", [=] { int p = a(); put("not", a(), {p}, {}, Cudd_Not(reg[p])); });
    addop("var", [=] { int i = R(nvars); put("var", a(), {}, {i}, Cudd_bddIthVar(dd, i)); });
    addop("load", [=] { load(); });
  }
  void opsC01() {
    basic(); basic();
    addop("iteLimit", [=] { int p = a(), q = a(), s = a(), l = lim(); put("iteLimit", a(), {p, q, s}, {l}, Cudd_bddIteLimit(dd, reg[p], reg[q], reg[s], l)); });
    addop("iteSpecial", [=] { // operands related to each other: the terminal cases of the recursion
      int p = a(), q = a(); DdNode *f = reg[p], *g = reg[q]; DdNode* o[6] = {f, Cudd_Not(f), g, Cudd_Not(g), DD_ONE(dd), Cudd_Not(DD_ONE(dd))}; int u = R(6), v = R(6), w = R(6);
      put("iteSel", a(), {p, q}, {u, v, w}, Cudd_bddIte(dd, o[u], o[v], o[w])); });
    addop("leq", [=] { int p = a(), q = a(); num("leq", {p, q}, {}, {Cudd_bddLeq(dd, reg[p], reg[q])}); });
    addop("leqAnd", [=] { int p = a(), q = a(); DdNode* c = Cudd_bddAnd(dd, reg[p], reg[q]); if (!c) return; put("and", q, {p, q}, {}, c); num("leq", {q, p}, {}, {Cudd_bddLeq(dd, reg[q], reg[p])}); });
    addop("leqUnless", [=] { int p = a(), q = a(), s = a(); num("leqUnless", {p, q, s}, {}, {Cudd_bddLeqUnless(dd, reg[p], reg[q], reg[s])}); });
    addop("equivDC", [=] { int p = a(), q = a(), s = a(); num("equivDC", {p, q, s}, {}, {Cudd_EquivDC(dd, reg[p], reg[q], reg[s])}); });
    addop("dcXor", [=] { // F and G differ inside D only
      int p = a(), s = a(), w = a(), q = a(); if (q == p || q == s) return; DdNode* x = Cudd_bddAnd(dd, reg[w], reg[s]); if (!x) return; put("and", q, {w, s}, {}, x);
      DdNode* g = Cudd_bddXor(dd, reg[p], reg[q]); put("xor", q, {p, q}, {}, g);
      num("equivDC", {p, q, s}, {}, {Cudd_EquivDC(dd, reg[p], reg[q], reg[s])}); num("leqUnless", {p, q, s}, {}, {Cudd_bddLeqUnless(dd, reg[p], reg[q], reg[s])}); });
    addop("iteConstant", [=] { int p = a(), q = a(), s = a(); if (P(40)) s = p; if (P(30)) q = p; DdNode* r = Cudd_bddIteConstant(dd, reg[p], reg[q], reg[s]); num("iteConstant", {p, q, s}, {}, {r == DD_NON_CONSTANT ? 2 : r == DD_ONE(dd) ? 1 : r == Cudd_Not(DD_ONE(dd)) ? 0 : 3}); });
    addop("intersect", [=] { int p = a(), q = a(); put("intersect", a(), {p, q}, {}, Cudd_bddIntersect(dd, reg[p], reg[q])); });
    addop("correlation", [=] { int p = a(), q = a(); num("correlation", {p, q}, {}, {num(Cudd_bddCorrelation(dd, reg[p], reg[q]) * M)}); });
    addop("correlationW", [=] { int p = a(), q = a(); vector<double> pr(n); V x; for (int i = 0; i < n; i++) { int w = R(3); x.push_back(w); pr[i] = w / 2.0; } num("correlationW", {p, q}, x, {num(Cudd_bddCorrelationWeights(dd, reg[p], reg[q], pr.data()) * M)}); });
    addop("varDependent", [=] { int p = a(), i = R(n); num("varDependent", {p}, {i}, {Cudd_bddVarIsDependent(dd, reg[p], var(i))}); });
    addop("symmetric", [=] { int p = a(), i = R(n), j = R(n); if (i == j) return; num("symmetric", {p}, {i, j}, {Cudd_VarsAreSymmetric(dd, reg[p], i, j)}); });
    addop("literals", [=] { int m1 = R(M), p1 = R(M), m2 = R(M), p2 = P(50) ? p1 : R(M); DdNode *f = cubeP(m1, p1), *g = cubeP(m2, p2); put("literals", a(), {}, {m1, p1, m2, p2}, Cudd_bddLiteralSetIntersection(dd, f, g)); Cudd_RecursiveDeref(dd, f); Cudd_RecursiveDeref(dd, g); });
    addop("checkCube", [=] { int p = a(); num("checkCube", {p}, {}, {Cudd_CheckCube(dd, reg[p])}); });
    addop("computeCube", [=] { int m = R(M), ph = R(M); vector<DdNode*> v; V f; for (int i : perm(n)) if ((m >> i) & 1) { v.push_back(var(i)); f.push_back((ph >> i) & 1); } put("cube", a(), {}, {m, ph}, Cudd_bddComputeCube(dd, v.data(), P(20) && (ph | ~m) == -1 ? nullptr : f.data(), v.size())); });
    addop("numbers", [=] { // comparisons of numbers encoded by variables, most significant first
      V p = perm(n); int w = R(7), N = (w == 2 || w == 3) ? n / 3 : w == 6 ? 1 + R(n) : n / 2; if (N < 1) return; vector<DdNode*> X, Y, Z; V x = {N, 0, 0};
      for (int i = 0; i < N; i++) { X.push_back(var(p[i])); x.push_back(p[i]); }
      if (w != 6) for (int i = 0; i < N; i++) { Y.push_back(var(p[N + i])); x.push_back(p[N + i]); }
      if (w == 2 || w == 3) for (int i = 0; i < N; i++) { Z.push_back(var(p[2 * N + i])); x.push_back(p[2 * N + i]); }
      int c = R((2 << N) + 3) - (1 << N) - 1, c2 = R(1 << N);
      if (w == 6) c = R(1 << N); x[1] = c; x[2] = c2; DdNode* r = nullptr; const char* nm = "";
      if (w == 0) nm = "xgty", r = Cudd_Xgty(dd, N, nullptr, X.data(), Y.data());
      if (w == 1) nm = "xeqy", r = Cudd_Xeqy(dd, N, X.data(), Y.data());
      if (w == 2) nm = "dxygtdxz", r = Cudd_Dxygtdxz(dd, N, X.data(), Y.data(), Z.data());
      if (w == 3) nm = "dxygtdyz", r = Cudd_Dxygtdyz(dd, N, X.data(), Y.data(), Z.data());
      if (w == 4) nm = "inequality", r = Cudd_Inequality(dd, N, c, X.data(), Y.data());
      if (w == 5) nm = "disequality", r = Cudd_Disequality(dd, N, c, X.data(), Y.data());
      if (w == 6) nm = "interval", r = Cudd_bddInterval(dd, N, X.data(), c, c2);
      put(nm, a(), {}, x, r); });
  }
  void opsC02() {
    basic();
    for (int z = 0; z < 2; z++) {
    addop("exist", [=] { int p = a(), m = R(M); DdNode* c = cube(m); put("exist", a(), {p}, {m}, Cudd_bddExistAbstract(dd, reg[p], c)); Cudd_RecursiveDeref(dd, c); });
    addop("univ", [=] { int p = a(), m = R(M); DdNode* c = cube(m); put("univ", a(), {p}, {m}, Cudd_bddUnivAbstract(dd, reg[p], c)); Cudd_RecursiveDeref(dd, c); });
    addop("existLimit", [=] { int p = a(), m = R(M), l = lim(); DdNode* c = cube(m); put("existLimit", a(), {p}, {m, l}, Cudd_bddExistAbstractLimit(dd, reg[p], c, l)); Cudd_RecursiveDeref(dd, c); });
    addop("univLimit", [=] { int p = a(), m = R(M), l = lim(); DdNode* c = cube(m); put("univLimit", a(), {p}, {m, l}, Cudd_bddUnivAbstractLimit(dd, reg[p], c, l)); Cudd_RecursiveDeref(dd, c); });
    addop("andAbs", [=] { int p = a(), q = a(), m = R(M); DdNode* c = cube(m); put("andAbs", a(), {p, q}, {m}, Cudd_bddAndAbstract(dd, reg[p], reg[q], c)); Cudd_RecursiveDeref(dd, c); });
    addop("andAbsLimit", [=] { int p = a(), q = a(), m = R(M), l = lim(); DdNode* c = cube(m); put("andAbsLimit", a(), {p, q}, {m, l}, Cudd_bddAndAbstractLimit(dd, reg[p], reg[q], c, l)); Cudd_RecursiveDeref(dd, c); });
    addop("xorExist", [=] { int p = a(), q = a(), m = R(M); DdNode* c = cube(m); put("xorExist", a(), {p, q}, {m}, Cudd_bddXorExistAbstract(dd, reg[p], reg[q], c)); Cudd_RecursiveDeref(dd, c); });
    addop("boolDiff", [=] { int p = a(), i = R(n); put("boolDiff", a(), {p}, {i}, Cudd_bddBooleanDiff(dd, reg[p], i)); });
    addop("cofactor", [=] { int p = a(), m = R(M), ph = R(M); DdNode* c = cubeP(m, ph); put("cofactor", a(), {p}, {m, ph & m}, Cudd_Cofactor(dd, reg[p], c)); Cudd_RecursiveDeref(dd, c); });
    addop("compose", [=] { int p = a(), q = a(), i = R(n); put("compose", a(), {p, q}, {i}, Cudd_bddCompose(dd, reg[p], reg[q], i)); });
    addop("vecCompose", [=] { // x: per variable 0 = itself, else register
      int p = a(); V x(n), aa = {p}; vector<DdNode*> v; for (int i = 0; i < n; i++) { x[i] = P(50) ? 0 : 1 + a(); v.push_back(x[i] ? reg[x[i] - 1] : var(i)); }
      put("vecCompose", a(), {p}, x, Cudd_bddVectorCompose(dd, reg[p], v.data())); });
    addop("permute", [=] { int p = a(); V x = perm(n); put("permute", a(), {p}, x, Cudd_bddPermute(dd, reg[p], x.data())); });
    addop("swapVars", [=] { int p = a(), k = R(n / 2 + 1); V x = perm(n); x.resize(2 * k); vector<DdNode*> X, Y; for (int i = 0; i < k; i++) { X.push_back(var(x[i])); Y.push_back(var(x[k + i])); } put("swapVars", a(), {p}, x, Cudd_bddSwapVariables(dd, reg[p], X.data(), Y.data(), k)); });
    addop("setMap", [=] { int k = R(nvars / 2 + 1); V x = perm(nvars); x.resize(2 * k); vector<DdNode*> X, Y; for (int i = 0; i < k; i++) { X.push_back(var(x[i])); Y.push_back(var(x[k + i])); } int rc = Cudd_SetVarMap(dd, X.data(), Y.data(), k); Ev e; e.o = "setMap"; e.x = x; e.y = {rc}; emit(e); });
    addop("varMap", [=] { int p = a(); put("varMap", a(), {p}, {}, Cudd_bddVarMap(dd, reg[p])); });
    addop("adjPermute", [=] { int p = a(), k = n / 3 * 3; V x = perm(n); x.resize(k); vector<DdNode*> X; for (int i : x) X.push_back(var(i)); put("adjPermute", a(), {p}, x, Cudd_bddAdjPermuteX(dd, reg[p], X.data(), k)); });
    addop("transfer", [=] { // to a manager with another order and back
      int p = a(); DdManager* e = Cudd_Init(n, 0, 4, 16, 0); V o = perm(n); Cudd_ShuffleHeap(e, o.data()); DdNode* t = Cudd_bddTransfer(dd, e, reg[p]); 
      if (t) { Cudd_Ref(t); Ev ev; ev.o = "same"; ev.a = {p + 1}; ev.r = {bdd(t)}; ev.y = {Cudd_DebugCheck(e) == 0}; emit(ev); if (P(50)) Cudd_ReduceHeap(e, METH[R(14)], 0); put("same", a(), {p}, {}, Cudd_bddTransfer(e, dd, t), {1}); Cudd_RecursiveDeref(e, t); }
      Ev z; z.o = "zeroRef"; z.y = {Cudd_CheckZeroRef(e)}; emit(z); Cudd_Quit(e); });
    }
  }
  void opsC04() {
    basic();
    auto sz = [=](DdNode* r, DdNode* f) { return V{r ? Cudd_DagSize(r) : 0, Cudd_DagSize(f)}; };
    typedef DdNode* (*F2)(DdManager*, DdNode*, DdNode*);
    static const pair<const char*, F2> B[] = {{"constrain", Cudd_bddConstrain}, {"restrict", Cudd_bddRestrict}, {"minimize", Cudd_bddMinimize}, {"liCompact", Cudd_bddLICompaction}, {"npAnd", Cudd_bddNPAnd}};
    for (auto& b : B) { auto f = b.second; auto nm = b.first; addop(nm, [=] { int p = a(), q = a(); if (!nonzero(q)) return; DdNode* r = f(dd, reg[p], reg[q]); if (r) Cudd_Ref(r); V s = sz(r, reg[p]); if (r) Cudd_Deref(r); put(nm, a(), {p, q}, order(), r, s); }); }
    auto pairs = [=](std::function<void(int, int)> g) { int p = a(), q = a(), s = a(); if (s == p) return; DdNode* u = Cudd_bddOr(dd, reg[p], reg[q]); if (!u) return; put("or", s, {p, q}, {}, u); g(p, s); };
    addop("squeeze", [=] { pairs([=](int l, int u) { DdNode* r = Cudd_bddSqueeze(dd, reg[l], reg[u]); put("squeeze", a(), {l, u}, {}, r); }); });
    addop("interpolate", [=] { pairs([=](int l, int u) { put("interpolate", a(), {l, u}, {}, Cudd_bddInterpolate(dd, reg[l], reg[u])); }); });
    addop("interpolate2", [=] { // operands over different variables
      int p = a(), m = R(M), m2 = R(M); DdNode *c = cube(m), *c2 = cube(m2); DdNode* l = Cudd_bddUnivAbstract(dd, reg[p], c); if (l) { put("univ", p, {p}, {m}, l); int q = a(); if (q != p) { DdNode* u = Cudd_bddExistAbstract(dd, reg[p], c2); put("exist", q, {p}, {m2}, u); if (u) put("interpolate", a(), {p, q}, {}, Cudd_bddInterpolate(dd, reg[p], reg[q])); } }
      Cudd_RecursiveDeref(dd, c); Cudd_RecursiveDeref(dd, c2); });
    // approximations
    auto th = [=] { static const int T[] = {0, 1, 2, 3, 5, 8, 13}; return T[R(7)]; };
    addop("subHeavy", [=] { int p = a(), t = th(); put("subset", a(), {p}, {1, t}, Cudd_SubsetHeavyBranch(dd, reg[p], n, t)); });
    addop("supHeavy", [=] { int p = a(), t = th(); put("superset", a(), {p}, {1, t}, Cudd_SupersetHeavyBranch(dd, reg[p], n, t)); });
    addop("subShort", [=] { int p = a(), t = th() + n + 1, h = R(2); put("subset", a(), {p}, {2, t, h}, Cudd_SubsetShortPaths(dd, reg[p], n, t, h)); });
    addop("supShort", [=] { int p = a(), t = th() + n + 1, h = R(2); put("superset", a(), {p}, {2, t, h}, Cudd_SupersetShortPaths(dd, reg[p], n, t, h)); });
    addop("under", [=] { int p = a(), t = th(), s = R(2); double q[] = {0.5, 1.0, 1.5}; int k = R(3); put("subset", a(), {p}, {3, t, s, k}, Cudd_UnderApprox(dd, reg[p], n, t, s, q[k])); });
    addop("over", [=] { int p = a(), t = th(), s = R(2); double q[] = {0.5, 1.0, 1.5}; int k = R(3); put("superset", a(), {p}, {3, t, s, k}, Cudd_OverApprox(dd, reg[p], n, t, s, q[k])); });
    addop("remapUnder", [=] { int p = a(), t = th(), k = R(3); double q[] = {0.5, 1.0, 1.5}; put("subset", a(), {p}, {4, t, k}, Cudd_RemapUnderApprox(dd, reg[p], n, t, q[k])); });
    addop("remapOver", [=] { int p = a(), t = th(), k = R(3); double q[] = {0.5, 1.0, 1.5}; put("superset", a(), {p}, {4, t, k}, Cudd_RemapOverApprox(dd, reg[p], n, t, q[k])); });
    addop("biasUnder", [=] { int p = a(), b = a(), t = th(), k = R(3), k2 = R(3); double q[] = {0.5, 1.0, 1.5}; put("subset", a(), {p}, {5, t, k, k2, b}, Cudd_BiasedUnderApprox(dd, reg[p], reg[b], n, t, q[k], q[k2])); });
    addop("biasOver", [=] { int p = a(), b = a(), t = th(), k = R(3), k2 = R(3); double q[] = {0.5, 1.0, 1.5}; put("superset", a(), {p}, {5, t, k, k2, b}, Cudd_BiasedOverApprox(dd, reg[p], reg[b], n, t, q[k], q[k2])); });
    addop("subCompress", [=] { int p = a(), t = th() + n + 1; put("subset", a(), {p}, {6, t}, Cudd_SubsetCompress(dd, reg[p], n, t)); });
    addop("supCompress", [=] { int p = a(), t = th() + n + 1; put("superset", a(), {p}, {6, t}, Cudd_SupersetCompress(dd, reg[p], n, t)); });
    addop("clipAnd", [=] { int p = a(), q = a(), dep = R(n + 2), dir = R(2); put("clipAnd", a(), {p, q}, {dir, dep}, Cudd_bddClippingAnd(dd, reg[p], reg[q], dep, dir)); });
    addop("clipAndAbs", [=] { int p = a(), q = a(), dep = R(n + 2), dir = R(2), m = R(M); DdNode* c = cube(m); put("clipAndAbs", a(), {p, q}, {dir, dep, m}, Cudd_bddClippingAndAbstract(dd, reg[p], reg[q], c, dep, dir)); Cudd_RecursiveDeref(dd, c); });
    addop("maskSubset", [=] { int p = a(); if (!nonzero(p)) return; int k = R(n + 1); V o = perm(n); vector<DdNode*> all_, mask; for (int i = 0; i < n; i++) all_.push_back(var(i)); for (int i = 0; i < k; i++) mask.push_back(var(o[i])); if (!k) return; put("subsetNonempty", a(), {p}, {k}, Cudd_SubsetWithMaskVars(dd, reg[p], all_.data(), n, mask.data(), k)); });
    typedef int (*FD)(DdManager*, DdNode*, DdNode***);
    static const pair<const char*, FD> D[] = {{"conj", Cudd_bddApproxConjDecomp}, {"disj", Cudd_bddApproxDisjDecomp}, {"conj", Cudd_bddIterConjDecomp}, {"disj", Cudd_bddIterDisjDecomp}, {"conj", Cudd_bddGenConjDecomp}, {"disj", Cudd_bddGenDisjDecomp}, {"conj", Cudd_bddVarConjDecomp}, {"disj", Cudd_bddVarDisjDecomp}};
    for (int w = 0; w < 8; w++) { auto b = D[w]; addop(b.first, [=] { int p = a(); DdNode** c = nullptr; if (autodyn) Cudd_AutodynDisable(dd); /* see known-findings.txt */ int k = b.second(dd, reg[p], &c); if (autodyn) Cudd_AutodynEnable(dd, CUDD_REORDER_SAME);  vector<DdNode*> rs; if (k > 0) { for (int i = 0; i < k; i++) rs.push_back(c[i]); FREE(c); } put2(b.first, {p}, {w}, rs, {k}); }); }
    addop("charToVect", [=] { int p = a(); if (!nonzero(p)) return; V o = order(); DdNode** v = Cudd_bddCharToVect(dd, reg[p]); if (!v) { num("charToVect", {p}, o, {-1}); return; } vector<DdNode*> rs(v, v + n); FREE(v); put2("charToVect", {p}, o, rs, {order() == o}); });
    addop("cProjection", [=] { int p = a(), m = R(M), ph = R(M); DdNode* c = cubeP(m, ph); put("cProjection", a(), {p}, {m, ph & m}, Cudd_CProjection(dd, reg[p], c)); Cudd_RecursiveDeref(dd, c); });
    addop("splitSet", [=] { int p = a(); int c = cnt(val[p]); if (c == 0) return; int k = R(c + 1); vector<DdNode*> X; for (int i : perm(n)) X.push_back(var(i)); put("splitSet", a(), {p}, {k}, Cudd_SplitSet(dd, reg[p], X.data(), n, k)); });
    addop("makePrime", [=] { int p = a(); if (!nonzero(p)) return; V on; for (int m = 0; m < M; m++) if (val[p][m]) on.push_back(m); int pick = on[R(on.size())]; DdNode* c = cubeP(M - 1, pick); put("makePrime", a(), {p}, {pick}, Cudd_bddMakePrime(dd, c, reg[p])); Cudd_RecursiveDeref(dd, c); });
    addop("solve", [=] { int p = a(), m = R(M); int k = __builtin_popcount(m); if (!k) return; DdNode* y = cube(m); vector<DdNode*> G(k); int* ix = nullptr; if (autodyn) Cudd_AutodynDisable(dd); /* see known-findings.txt */ DdNode* cond = Cudd_SolveEqn(dd, reg[p], y, G.data(), &ix, k); if (autodyn) Cudd_AutodynEnable(dd, CUDD_REORDER_SAME); if (!cond) { num("solve", {p}, {m}, {-1}); Cudd_RecursiveDeref(dd, y); return; }
      Cudd_Ref(cond); DdNode* ver = Cudd_VerifySol(dd, reg[p], G.data(), ix, k); if (!ver) return; Cudd_Ref(ver); vector<DdNode*> rs = {cond, ver}; put2("solve", {p}, {m}, rs, {k}); for (auto g : G) Cudd_RecursiveDeref(dd, g); Cudd_RecursiveDeref(dd, y); });
    addop("bddIsop", [=] { pairs([=](int l, int u) { put("squeeze", a(), {l, u}, {}, Cudd_bddIsop(dd, reg[l], reg[u])); }); });
    addop("prioritySelect", [=] { int k = n / 3; if (!k) return; int p = a(); V x = perm(n); vector<DdNode*> X, Y, Z; for (int i = 0; i < k; i++) { X.push_back(var(x[i])); Y.push_back(var(x[k + i])); Z.push_back(var(x[2 * k + i])); } int zm = 0, rest = 0; for (int i = 2 * k; i < n; i++) zm |= 1 << x[i]; (void)rest;
      DdNode* c = cube(zm); DdNode* f = Cudd_bddExistAbstract(dd, reg[p], c); Cudd_RecursiveDeref(dd, c); if (!f) return; put("exist", p, {p}, {zm}, f); int w = R(2); x.resize(2 * k); x.insert(x.begin(), k); put("prioritySelect", a(), {p}, x, Cudd_PrioritySelect(dd, reg[p], X.data(), Y.data(), Z.data(), nullptr, k, w ? Cudd_Dxygtdxz : Cudd_Xgty), {w}); });
  }
  void opsC05() {
    basic();
    auto skel = [=](const char* o, std::function<V(int)> g) { addop(o, [=] { int p = a(); V x = order(); num(o, {p}, x, g(p)); }); };
    skel("countMinterm", [=](int p) { return V{num(Cudd_CountMinterm(dd, reg[p], n)), num(Cudd_CountMinterm(dd, reg[p], n + 3) / 8)}; });
    skel("countMinterm", [=](int p) { EpDouble* e = EpdAlloc(); Cudd_EpdCountMinterm(dd, reg[p], n, e); char s[100]; EpdGetString(e, s); EpdFree(e); double v; v = atof(s); DdApaNumber an; int dig = 0; an = Cudd_ApaCountMinterm(dd, reg[p], n, &dig); char* st = Cudd_ApaStringDecimal(dig, an); int av = atoi(st); FREE(st); Cudd_FreeApaNumber(an); return V{num(v), av}; });
    skel("countMinterm", [=](int p) { return V{num((double)Cudd_LdblCountMinterm(dd, reg[p], n)), num(Cudd_Density(dd, reg[p], n) * Cudd_DagSize(reg[p]))}; });
    skel("countPath", [=](int p) { return V{num(Cudd_CountPath(reg[p])), num(Cudd_CountPathsToNonZero(reg[p])), Cudd_DagSize(reg[p]), Cudd_CountLeaves(reg[p])}; });
    addop("nodeGen", [=] { int p = a(); V x = order(); DdGen* g; DdNode* nd; int c = 0; std::set<DdNode*> s; Cudd_ForeachNode(dd, reg[p], g, nd) { c++; s.insert(nd); } num("dagSize", {p}, x, {c, (int)s.size()}); });
    addop("sharingSize", [=] { int p = a(), q = a(), s = a(); V x = order(); DdNode* v[3] = {reg[p], reg[q], reg[s]}; num("sharingSize", {p, q, s}, x, {Cudd_SharingSize(v, 3)}); });
    addop("supportIndex", [=] { int p = a(); int* s = Cudd_SupportIndex(dd, reg[p]); int m = 0; for (int i = 0; i < n; i++) if (s[i]) m |= 1 << i; FREE(s); int* ix; int k = Cudd_SupportIndices(dd, reg[p], &ix); int m2 = 0; for (int i = 0; i < k; i++) m2 |= 1 << ix[i]; if (k) FREE(ix); num("support", {p}, {}, {m, m2, Cudd_SupportSize(dd, reg[p]), k}); });
    addop("supportBdd", [=] { int p = a(); put("supportCube", a(), {p}, {}, Cudd_Support(dd, reg[p])); });
    addop("vecSupport", [=] { int p = a(), q = a(); DdNode* v[2] = {reg[p], reg[q]}; int* s = Cudd_VectorSupportIndex(dd, v, 2); int m = 0; for (int i = 0; i < n; i++) if (s[i]) m |= 1 << i; FREE(s); int* ix; int k = Cudd_VectorSupportIndices(dd, v, 2, &ix); int m2 = 0; for (int i = 0; i < k; i++) m2 |= 1 << ix[i]; if (k) FREE(ix); num("vecSupport", {p, q}, {}, {m, m2, Cudd_VectorSupportSize(dd, v, 2), k}); put("vecSupportCube", a(), {p, q}, {}, Cudd_VectorSupport(dd, v, 2)); });
    addop("classify", [=] { int p = a(), q = a(); DdNode *c, *f, *g; if (!Cudd_ClassifySupport(dd, reg[p], reg[q], &c, &f, &g)) return; Cudd_Ref(c); Cudd_Ref(f); Cudd_Ref(g); put2("classify", {p, q}, {}, {c, f, g}); });
    addop("essential", [=] { int p = a(); put("essential", a(), {p}, {}, Cudd_FindEssential(dd, reg[p])); });
    addop("isEssential", [=] { int p = a(), i = R(n), ph = R(2); num("isEssential", {p}, {i, ph}, {Cudd_bddIsVarEssential(dd, reg[p], i, ph)}); });
    addop("twoLiteral", [=] { int p = a(); V ident(nvars); for (int i = 0; i < nvars; i++) ident[i] = i; if (groups || nvars < n || !Cudd_ShuffleHeap(dd, ident.data())) return; /* other orders: see known-findings.txt */ DdTlcInfo* t = Cudd_FindTwoLiteralClauses(dd, reg[p]); V y; unsigned v1, v2; int p1, p2; for (int i = 0; Cudd_ReadIthClause(t, i, &v1, &v2, &p1, &p2); i++) { y.push_back(v1); y.push_back(p1); y.push_back(v2 == CUDD_CONST_INDEX ? -1 : (int)v2); y.push_back(v2 == CUDD_CONST_INDEX ? 0 : p2); } Cudd_tlcInfoFree(t); num("twoLiteral", {p}, {}, y); });
    addop("eval", [=] { int p = a(), m = R(M); V in(n); for (int i = 0; i < n; i++) in[i] = (m >> i) & 1; DdNode* r = Cudd_Eval(dd, reg[p], in.data()); num("eval", {p}, {m}, {r == DD_ONE(dd) ? 1 : r == Cudd_Not(DD_ONE(dd)) ? 0 : 3}); });
    addop("shortestPath", [=] { int p = a(); if (!nonzero(p)) return; bool unit = P(30); V w(n), s(n); for (auto& z : w) z = unit ? 1 : R(5); int len = -5; DdNode* r = Cudd_ShortestPath(dd, reg[p], unit ? nullptr : w.data(), P(50) ? s.data() : nullptr, &len); int l2 = -9; if (r) { Cudd_Ref(r); l2 = Cudd_ShortestLength(dd, reg[p], unit ? nullptr : w.data()); Cudd_Deref(r); } put("shortestPath", a(), {p}, w, r, {len, l2}); });
    addop("largestCube", [=] { int p = a(); if (!nonzero(p)) return; V x = order(); int len = -5; DdNode* r = Cudd_LargestCube(dd, reg[p], &len); put("largestCube", a(), {p}, x, r, {len, order() == x}); });
    addop("unate", [=] { int p = a(), i = R(n); DdNode *r = Cudd_Decreasing(dd, reg[p], i), *s = Cudd_Increasing(dd, reg[p], i); num("unate", {p}, {i}, {r == DD_ONE(dd) ? 1 : r == Cudd_Not(DD_ONE(dd)) ? 0 : 3, s == DD_ONE(dd) ? 1 : s == Cudd_Not(DD_ONE(dd)) ? 0 : 3}); });
    addop("cofMinterm", [=] { int p = a(); double* c = Cudd_CofMinterm(dd, reg[p]); V y; for (int i = 0; i <= n; i++) y.push_back(num(c[i] * M)); FREE(c); num("cofMinterm", {p}, {}, y); });
    auto code = [=](int* c) { int on = 0, dc = 0; for (int i = 0; i < n; i++) if (c[i] == 2) dc |= 1 << i; else if (c[i] == 1) on |= 1 << i; return pair<int, int>(on, dc); };
    addop("cubes", [=] { int p = a(); V x = order(); DdGen* g; int* c; CUDD_VALUE_TYPE v; V y; Cudd_ForeachCube(dd, reg[p], g, c, v) { auto k = code(c); y.push_back(k.first); y.push_back(k.second); y.push_back(num((double)v)); } num("cubes", {p}, x, y); });
    addop("primes", [=] { int p = a(), q = a(), s = a(); if (s == p) return; DdNode* u = Cudd_bddOr(dd, reg[p], reg[q]); if (!u) return; put("or", s, {p, q}, {}, u); DdGen* g; int* c; V y; Cudd_ForeachPrime(dd, reg[p], reg[s], g, c) { auto k = code(c); y.push_back(k.first); y.push_back(k.second); } num("primes", {p, s}, {}, y); });
    addop("pickCube", [=] { int p = a(); if (!nonzero(p)) return; vector<char> s(n + 1); int rc = Cudd_bddPickOneCube(dd, reg[p], s.data()); V c(s.begin(), s.begin() + n); auto k = code(c.data()); num("pickCube", {p}, {}, {rc, k.first, k.second}); });
    addop("pickMinterm", [=] { int p = a(); if (!nonzero(p)) return; vector<DdNode*> X; for (int i : perm(n)) X.push_back(var(i)); put("pickMinterm", a(), {p}, {}, Cudd_bddPickOneMinterm(dd, reg[p], X.data(), n)); });
    addop("pickMinterms", [=] { int p = a(); int c = cnt(val[p]); if (!c) return; int k = 1 + R(c); vector<DdNode*> X; for (int i : perm(n)) X.push_back(var(i)); DdNode** rs = Cudd_bddPickArbitraryMinterms(dd, reg[p], X.data(), n, k); if (!rs) { num("pickMinterms", {p}, {k}, {-1}); return; } vector<DdNode*> v; for (int i = 0; i < k; i++) { Cudd_Ref(rs[i]); v.push_back(rs[i]); } FREE(rs); put2("pickMinterms", {p}, {k}, v); });
    addop("hamming", [=] { int p = a(), m = R(M), ub = 1 + R(n + 1); V in(n); for (int i = 0; i < n; i++) in[i] = (m >> i) & 1; num("hamming", {p}, {m, ub}, {Cudd_MinHammingDist(dd, reg[p], in.data(), ub)}); });
    addop("closestCube", [=] { int p = a(), q = a(); if (!nonzero(p) || !nonzero(q)) return; int d = -5; DdNode* r = Cudd_bddClosestCube(dd, reg[p], reg[q], &d); put("closestCube", a(), {p, q}, {}, r, {d}); });
    addop("cubeArray", [=] { int m = R(M), ph = R(M); V c(n); for (int i = 0; i < n; i++) c[i] = (m >> i) & 1 ? (ph >> i) & 1 : 2; DdNode* r = Cudd_CubeArrayToBdd(dd, c.data()); V b(n, -1); int ok = 0; if (r) { Cudd_Ref(r); ok = Cudd_BddToCubeArray(dd, r, b.data()); Cudd_Deref(r); } put("cube", a(), {}, {m, ph}, r, {ok == 1 && b == c}); });
    addop("cubeArrayOf", [=] { int p = a(); V b(n, -1); int ok = Cudd_BddToCubeArray(dd, reg[p], b.data()); if (ok != 1) { num("checkCubeNZ", {p}, {}, {0}); return; } auto k = code(b.data()); num("cubeOf", {p}, {}, {k.first, k.second}); });
    addop("indices", [=] { V o = perm(n); int k = R(n + 1); o.resize(k); int m = 0; for (int i : o) m |= 1 << i; put("cube", a(), {}, {m, m}, Cudd_IndicesToCube(dd, o.data(), k), {1}); });
    addop("isVar", [=] { int p = a(); num("isVar", {p}, {}, {Cudd_bddIsVar(dd, reg[p])}); });
    addop("checkCube", [=] { int p = a(); num("checkCube", {p}, {}, {Cudd_CheckCube(dd, reg[p])}); });
    addop("estimate", [=] { int p = a(); num("dagSize", {p}, order(), {Cudd_DagSize(reg[p]), Cudd_DagSize(reg[p])}); });
  }
  void finish() {
    for (auto f : reg) Cudd_RecursiveDeref(dd, f);
    for (auto f : proj) Cudd_RecursiveDeref(dd, f);
    Ev e; if (!linear) { e.o = "zeroRef"; e.y = {Cudd_CheckZeroRef(dd)}; emit(e); }
    e.o = "check"; e.y = {consistent()}; emit(e);
    FILE* f = Cudd_ReadStdout(dd); if (groups) Cudd_FreeTree(dd); Cudd_Quit(dd); fclose(f);
  }
};
