// The ADD operations of the machine: registers hold integer-valued functions (plus and minus infinity as +-INF).
#pragma once
#include "cudd_bddops.hpp"

struct Add : Bdd {
  virtual V fun(DdNode* f) { return add(f); }
  virtual DdNode* zeroN() { return DD_ZERO(dd); }
  virtual void load() { loadAdd(); }
  virtual V randVal() { return randAdd(); }
  virtual DdNode* make(const V& t) { return buildAdd(t, n - 1, 0); }
  DdNode* bgNode = nullptr; int bg = 0; // the background value, fixed for a history
  void background() { if (P(25)) { bg = R(3); bgNode = Cudd_addConst(dd, bg); Cudd_Ref(bgNode); Cudd_SetBackground(dd, bgNode); } }
  void done() { if (bgNode) { Cudd_SetBackground(dd, DD_ZERO(dd)); Cudd_RecursiveDeref(dd, bgNode); bgNode = nullptr; } }
  V withBg(V o) { o.push_back(bg); return o; }
  static bool zo(const V& t) { for (int b : t) if (b != 0 && b != 1) return false; return true; }
  static bool within(const V& t, int lim, bool inf = true) { for (int b : t) if (std::abs(b) != INF ? std::abs(b) > lim : !inf) return false; return true; }
  static bool pos(const V& t) { for (int b : t) if (b <= 0) return false; return true; }
  static bool mixed(const V& t) { bool p = false, m = false; for (int b : t) { if (b == INF) p = true; if (b == -INF) m = true; } return p && m; }
  static bool has(const V& t, int v) { for (int b : t) if (b == v) return true; return false; }
  bool clash(int p, int q) { return (has(val[p], INF) || has(val[q], INF)) && (has(val[p], -INF) || has(val[q], -INF)); }
  int a01() { for (int t = 0; t < 4 * nr(); t++) { int q = a(); if (zo(val[q])) return q; } return -1; }
  V randAdd() {
    V t = randFun(); int k = R(8);
    if (k == 0) return t;                                             // 0/1
    int lo = R(5), hi = 1 + R(8); V pal(2 + R(4)); for (auto& c : pal) c = R(lo + hi) - lo;
    if (k == 1) for (auto& c : pal) c = 1 + R(8);                      // divisors
    if (k == 2) for (auto& c : pal) c = 1 << R(4);                     // powers of two
    if (k == 3) pal[R(pal.size())] = INF;
    if (k == 4) pal[R(pal.size())] = P(70) ? -INF : INF;
    V s = randFun(), u = randFun();
    for (int m = 0; m < M; m++) t[m] = pal[(t[m] + 2 * s[m] + (k > 5 ? 3 * u[m] : 0)) % pal.size()];
    return t;
  }
  void loadAdd() { V t = randAdd(); DdNode* f = buildAdd(t, n - 1, 0); Cudd_Deref(f); keep("load", {}, t, f); }
  // store the result unless its values leave the range the specification computes with
  void keep(const char* o, V aa, V x, DdNode* r, V y = {}) {
    if (!r) { put(o, -1, aa, x, nullptr); return; }
    V t = add(r); bool small = within(t, 300);
    put(o, small ? a() : -1, aa, x, r, y);
  }
  void scaled(const char* o, V aa, V x, DdNode* r, double sc) { // not stored: values times sc
    Ev e; e.o = o; e.x = x; for (int q : aa) e.a.push_back(q + 1);
    if (!r) { e.y = {-1}; emit(e); return; }
    Cudd_Ref(r); e.r = {V(M)};
    for (int k = 0; k < M; k++) { V in(n); for (int i = 0; i < n; i++) in[i] = (k >> i) & 1; DdNode* g = r; while (!cuddIsConstant(g)) g = in[g->index] ? cuddT(g) : cuddE(g);
      double v = cuddV(g); e.r[0][k] = std::isnan(v) || std::fabs(v) > 1e4 ? INF + 1 : (int)std::floor(v * sc + 0.5); }
    emit(e); Cudd_RecursiveDeref(dd, r);
  }
  void asBdd(const char* o, V aa, V x, DdNode* r) { // a BDD result: logged, converted, the conversion kept
    Ev e; e.o = o; e.x = x; for (int q : aa) e.a.push_back(q + 1);
    if (!r) { e.y = {-1}; emit(e); return; }
    Cudd_Ref(r); e.r = {bdd(r)}; emit(e);
    if (P(50)) { DdNode* g = Cudd_BddToAdd(dd, r); keep("load", {}, e.r[0], g); }
    Cudd_RecursiveDeref(dd, r);
  }
  vector<DdNode*> avars(const V& ix) { vector<DdNode*> v; for (int i : ix) { v.push_back(Cudd_addIthVar(dd, i)); Cudd_Ref(v.back()); } return v; }
  void drop(vector<DdNode*>& v) { for (auto x : v) Cudd_RecursiveDeref(dd, x); }
  V split(int& k, int parts) { V p = perm(n); k = 1 + R(n / parts); p.resize(parts * k); return p; }

  void ops6() {
    typedef DdNode* (*F2)(DdManager*, DdNode**, DdNode**);
    struct B2 { const char* o; F2 f; int need; }; // need 1: 0/1 operands; 2: no infinity clash; 3: no infinities; 4: clash of differences; 5: products
    static const B2 b2[] = {{"plus", Cudd_addPlus, 2}, {"times", Cudd_addTimes, 5}, {"threshold", Cudd_addThreshold, 0}, {"setNZ", Cudd_addSetNZ, 0},
      {"minus", Cudd_addMinus, 4}, {"minimum", Cudd_addMinimum, 0}, {"maximum", Cudd_addMaximum, 0}, {"oneZeroMax", Cudd_addOneZeroMaximum, 0}, {"diff", Cudd_addDiff, 0},
      {"agreement", Cudd_addAgreement, 0}, {"or", Cudd_addOr, 1}, {"nand", Cudd_addNand, 1}, {"nor", Cudd_addNor, 1}, {"xor", Cudd_addXor, 1}, {"xnor", Cudd_addXnor, 1},
      {"equals", Cudd_addEquals, 0}, {"notEquals", Cudd_addNotEquals, 0}, {"gt", Cudd_addGreaterThan, 0}, {"geq", Cudd_addGreaterThanEquals, 0},
      {"lt", Cudd_addLessThan, 0}, {"leqv", Cudd_addLessThanEquals, 0}};
    for (auto& b : b2) { auto f = b.f; auto o = b.o; int need = b.need; addop(o, [=] {
      int p = need == 1 ? a01() : a(), q = need == 1 ? a01() : a(); if (p < 0 || q < 0) return;
      if (need == 2 && clash(p, q)) return;
      if (need == 3 && !(within(val[p], 300, false) && within(val[q], 300, false))) return;
      if (need == 4 && ((has(val[p], INF) && has(val[q], INF)) || (has(val[p], -INF) && has(val[q], -INF)))) return;
      keep(o, {p, q}, {bg}, Cudd_addApply(dd, f, reg[p], reg[q])); }); }
    addop("divide", [=] { int p = a(), q = a(); if (!within(val[p], 300, false) || !within(val[q], 8, false) || has(val[q], 0) || has(val[q], 7) || has(val[q], -7)) return;
      scaled("divide", {p, q}, {}, Cudd_addApply(dd, Cudd_addDivide, reg[p], reg[q]), 120); });
    addop("pow", [=] { int p = a(), q = a(); if (!within(val[p], 6, false) || !within(val[q], 4, false)) return; for (int v : val[q]) if (v < 0) return; keep("pow", {p, q}, {}, Cudd_addApply(dd, Cudd_addPow, reg[p], reg[q])); });
    addop("mod", [=] { int p = a(), q = a(); if (!within(val[p], 300, false) || !pos(val[q]) || has(val[q], INF)) return; keep("mod", {p, q}, {}, Cudd_addApply(dd, Cudd_addMod, reg[p], reg[q])); });
    addop("logxy", [=] { int p = a(), q = a(); for (int v : val[p]) if (v != 1 && v != 2 && v != 4 && v != 8) return; for (int v : val[q]) if (v != 2 && v != 4 && v != 8) return;
      scaled("logxy", {p, q}, {}, Cudd_addApply(dd, Cudd_addLogXY, reg[p], reg[q]), 6); });
    addop("log", [=] { int p = a(); if (!pos(val[p]) || !within(val[p], 8, false)) return; scaled("log", {p}, {}, Cudd_addMonadicApply(dd, Cudd_addLog, reg[p]), 10000); });
    addop("negate", [=] { int p = a(); keep("negate", {p}, {}, P(50) ? Cudd_addNegate(dd, reg[p]) : Cudd_addMonadicApply(dd, Cudd_addNegate, reg[p])); });
    addop("cmpl", [=] { int p = a(); keep("cmpl", {p}, {}, Cudd_addCmpl(dd, reg[p])); });
    addop("roundOff", [=] { int p = a(), N = R(3); if (!within(val[p], 300, false)) return; DdNode* c = Cudd_addConst(dd, 8); Cudd_Ref(c); DdNode* t = Cudd_addApply(dd, Cudd_addDivide, reg[p], c); Cudd_Ref(t);
      scaled("roundOff", {p}, {N}, Cudd_addRoundOff(dd, t, N), 1000); Cudd_RecursiveDeref(dd, t); Cudd_RecursiveDeref(dd, c); });
    addop("scalarInverse", [=] { int p = a(); if (!within(val[p], 8, false) || has(val[p], 0) || has(val[p], 7) || has(val[p], -7)) return; DdNode* eps = Cudd_addConst(dd, 0.01); Cudd_Ref(eps); scaled("scalarInverse", {p}, {}, Cudd_addScalarInverse(dd, reg[p], eps), 120); Cudd_RecursiveDeref(dd, eps); });
    addop("scalarInverseNull", [=] { int p = a(); if (!has(val[p], 0)) return; DdNode* eps = Cudd_addConst(dd, 0.01); Cudd_Ref(eps); DdNode* r = Cudd_addScalarInverse(dd, reg[p], eps); num("isNull", {p}, {}, {r == nullptr}); if (r) { Cudd_Ref(r); Cudd_RecursiveDeref(dd, r); } Cudd_RecursiveDeref(dd, eps); });
    addop("findMax", [=] { int p = a(); num("findMax", {p}, {}, {Mach::num(Cudd_V(Cudd_addFindMax(dd, reg[p]))), Mach::num(Cudd_V(Cudd_addFindMin(dd, reg[p])))}); });
    addop("ithBit", [=] { int p = a(), b = R(4); if (!within(val[p], 300, false)) return; keep("ithBit", {p}, {b}, Cudd_addIthBit(dd, reg[p], b)); });
    addop("bddIthBit", [=] { int p = a(), b = R(4); if (!within(val[p], 300, false)) return; asBdd("ithBit", {p}, {b}, Cudd_addBddIthBit(dd, reg[p], b)); });
    addop("bddThreshold", [=] { int p = a(), b = val[p][R(M)]; if (std::abs(b) == INF) b = 0; b += R(3) - 1; asBdd("bddThreshold", {p}, {b}, Cudd_addBddThreshold(dd, reg[p], b)); });
    addop("bddStrict", [=] { int p = a(), b = val[p][R(M)]; if (std::abs(b) == INF) b = 0; b += R(3) - 1; asBdd("bddStrict", {p}, {b}, Cudd_addBddStrictThreshold(dd, reg[p], b)); });
    addop("bddInterval", [=] { int p = a(), b = val[p][R(M)]; if (std::abs(b) == INF) b = 0; b += R(3) - 1; int c = b + R(4); asBdd("bddInterval", {p}, {b, c}, Cudd_addBddInterval(dd, reg[p], b, c)); });
    addop("bddPattern", [=] { int p = a(); asBdd("bddPattern", {p}, {}, Cudd_addBddPattern(dd, reg[p])); });
    addop("bddToAdd", [=] { V t = randFun(); DdNode* f = build(t, n - 1, 0); keep("load", {}, t, Cudd_BddToAdd(dd, f)); Cudd_RecursiveDeref(dd, f); });
    addop("ite", [=] { int p = a01(), q = a(), r = a(); if (p < 0) return; keep("ite", {p, q, r}, {}, Cudd_addIte(dd, reg[p], reg[q], reg[r])); });
    addop("iteConstant", [=] { int p = a01(), q = a(), r = a(); if (p < 0) return; DdNode* c = Cudd_addIteConstant(dd, reg[p], reg[q], reg[r]);
      num("iteConstant", {p, q, r}, {}, c == DD_NON_CONSTANT || !Cudd_IsConstant(c) ? V{0} : V{1, Mach::num(Cudd_V(c))}); });
    addop("evalConst", [=] { int p = a01(), q = a(); if (p < 0) return; DdNode* c = Cudd_addEvalConst(dd, reg[p], reg[q]); num("evalConst", {p, q}, {bg}, c == DD_NON_CONSTANT || !Cudd_IsConstant(c) ? V{0} : V{1, Mach::num(Cudd_V(c))}); });
    addop("leq", [=] { int p = a(), q = a(); num("leq", {p, q}, {}, {Cudd_addLeq(dd, reg[p], reg[q])}); });
    addop("supNorm", [=] { int p = a(), q = a(), t = R(4); if (!within(val[p], 300, false) || !within(val[q], 300, false)) return; num("supNorm", {p, q}, {t}, {Cudd_EqualSupNorm(dd, reg[p], reg[q], t + 0.5, 0)}); });
    addop("existA", [=] { int p = a(), m = R(M); if (mixed(val[p])) return; DdNode* c = addCube(m); keep("sumAbs", {p}, {m}, Cudd_addExistAbstract(dd, reg[p], c)); Cudd_RecursiveDeref(dd, c); });
    addop("univA", [=] { int p = a(), m = R(M) & R(M); if (mixed(val[p])) return; int b = __builtin_popcount(m); if (!(b <= 1 ? within(val[p], 300) : b == 2 ? within(val[p], 20) : b == 3 ? within(val[p], 4) : within(val[p], 1))) return;
      DdNode* c = addCube(m); keep("prodAbs", {p}, {m}, Cudd_addUnivAbstract(dd, reg[p], c)); Cudd_RecursiveDeref(dd, c); });
    addop("orA", [=] { int p = a01(), m = R(M); if (p < 0) return; DdNode* c = addCube(m); keep("orAbs", {p}, {m}, Cudd_addOrAbstract(dd, reg[p], c)); Cudd_RecursiveDeref(dd, c); });
    addop("minA", [=] { int p = a(), m = R(M); DdNode* c = addCube(m); keep("minAbs", {p}, {m}, Cudd_addMinAbstract(dd, reg[p], c)); Cudd_RecursiveDeref(dd, c); });
    addop("compose", [=] { int p = a(), q = a01(), v = R(n); if (q < 0) return; keep("compose", {p, q}, {v}, Cudd_addCompose(dd, reg[p], reg[q], v)); });
    addop("permute", [=] { int p = a(); V w = perm(n); keep("permute", {p}, w, Cudd_addPermute(dd, reg[p], w.data())); });
    addop("swapVars", [=] { int p = a(), k; V w = split(k, 2); auto x = avars(V(w.begin(), w.begin() + k)), y = avars(V(w.begin() + k, w.end())); keep("swapVars", {p}, w, Cudd_addSwapVariables(dd, reg[p], x.data(), y.data(), k)); drop(x); drop(y); });
    addop("vecCompose", [=] { int p = a(); V x(n, 0); vector<DdNode*> v; bool sim = P(60); int sub = 0, dep = 0;
      for (int i = 0; i < n; i++) { int q = P(40) ? a01() : -1; if (q >= 0) { x[i] = q + 1; v.push_back(reg[q]); sub |= 1 << i; dep |= supp(val[q]); } else { v.push_back(Cudd_addIthVar(dd, i)); } Cudd_Ref(v.back()); }
      if (!sim && (sub & dep)) sim = true;
      keep("vecCompose", {p}, x, sim ? Cudd_addVectorCompose(dd, reg[p], v.data()) : Cudd_addNonSimCompose(dd, reg[p], v.data())); drop(v); });
    addop("genCompose", [=] { int p = a(); if (!within(val[p], 4, false)) return; V x(2 * n, 0); vector<DdNode*> on, off;
      for (int i = 0; i < n; i++) { int q = -1, r = -1; if (P(35)) { q = a(); r = a(); if (!within(val[q], 3, false) || !within(val[r], 3, false)) q = -1; }
        if (q >= 0) { x[i] = q + 1; x[n + i] = r + 1; on.push_back(reg[q]); off.push_back(reg[r]); Cudd_Ref(on.back()); Cudd_Ref(off.back()); }
        else { DdNode* v = Cudd_addIthVar(dd, i); Cudd_Ref(v); on.push_back(v); DdNode* c = Cudd_addCmpl(dd, v); Cudd_Ref(c); off.push_back(c); } }
      DdNode* r = Cudd_addGeneralVectorCompose(dd, reg[p], on.data(), off.data()); for (int v : order()) x.push_back(v); keep("genCompose", {p}, x, r); drop(on); drop(off); });
    addop("constrain", [=] { int p = a(), q = a01(); if (q < 0 || !nonzero(q)) return; DdNode* r = Cudd_addConstrain(dd, reg[p], reg[q]); keep("constrain", {p, q}, order(), r); });
    addop("restrict", [=] { int p = a(), q = a01(); if (q < 0 || !nonzero(q)) return; keep("restrict", {p, q}, {}, Cudd_addRestrict(dd, reg[p], reg[q])); });
    addop("matMul", [=] { int p = a(), q = a(), k = 1 + R(n - 1); if (!within(val[p], 60, false) || !within(val[q], 60, false)) return; V z = perm(n); z.resize(k); auto v = avars(z);
      bool tp = P(50); int m = 0; for (int i : z) m |= 1 << i; keep("matMul", {p, q}, {m}, tp ? Cudd_addTimesPlus(dd, reg[p], reg[q], v.data(), k) : Cudd_addMatrixMultiply(dd, reg[p], reg[q], v.data(), k)); drop(v); });
    addop("triangle", [=] { int p = a(), q = a(), k = 1 + R(n - 1); if (has(val[p], -INF) || has(val[q], -INF)) return; V z = perm(n); z.resize(k); auto v = avars(z); int m = 0; for (int i : z) m |= 1 << i;
      keep("triangle", {p, q}, {m}, Cudd_addTriangle(dd, reg[p], reg[q], v.data(), k)); drop(v); });
    addop("outerSum", [=] { int p = a(), q = a(), r = a(); if (has(val[q], -INF) || has(val[r], -INF) || has(val[p], -INF)) return; keep("outerSum", {p, q, r}, {}, Cudd_addOuterSum(dd, reg[p], reg[q], reg[r])); });
    addop("xeqy", [=] { int k; V w = split(k, 2); auto x = avars(V(w.begin(), w.begin() + k)), y = avars(V(w.begin() + k, w.end())); keep("xeqy", {}, w, Cudd_addXeqy(dd, k, x.data(), y.data())); drop(x); drop(y); });
    addop("hamming", [=] { int k; V w = split(k, 2); vector<DdNode*> x, y; for (int j = 0; j < k; j++) { x.push_back(var(w[j])); y.push_back(var(w[k + j])); } keep("hamming", {}, w, Cudd_addHamming(dd, x.data(), y.data(), k)); });
    addop("walsh", [=] { int k; V w = split(k, 2); auto x = avars(V(w.begin(), w.begin() + k)), y = avars(V(w.begin() + k, w.end())); keep("walsh", {}, w, Cudd_addWalsh(dd, x.data(), y.data(), k)); drop(x); drop(y); });
    addop("residue", [=] { int k = 1 + R(n), t = R(n - k + 1), m = 2 + R(6), o = R(4); keep("residue", {}, {k, m, o & 1, o >> 1, t}, Cudd_addResidue(dd, k, m, (o & 1 ? CUDD_RESIDUE_MSB : 0) | (o & 2 ? CUDD_RESIDUE_TC : 0), t)); });
    addop("cube", [=] { V w = perm(n); int k = 1 + R(n); w.resize(k); auto v = avars(w); V ph(k); int m = 0, p = 0; for (int j = 0; j < k; j++) { ph[j] = R(2); m |= 1 << w[j]; p |= ph[j] << w[j]; } keep("cube", {}, {m, p}, Cudd_addComputeCube(dd, v.data(), ph.data(), k)); drop(v); });
    addop("cofactor", [=] { int p = a(), m = R(M), ph = R(M); DdNode* c = DD_ONE(dd); Cudd_Ref(c); // cofactor by an ADD cube
      for (int i = 0; i < n; i++) if ((m >> i) & 1) { DdNode* v = Cudd_addIthVar(dd, i); Cudd_Ref(v); DdNode* l = (ph >> i) & 1 ? v : Cudd_addCmpl(dd, v); Cudd_Ref(l); DdNode* t = Cudd_addApply(dd, Cudd_addTimes, l, c); Cudd_Ref(t); Cudd_RecursiveDeref(dd, c); Cudd_RecursiveDeref(dd, l); Cudd_RecursiveDeref(dd, v); c = t; }
      keep("cofactor", {p}, {m, ph}, Cudd_Cofactor(dd, reg[p], c)); Cudd_RecursiveDeref(dd, c); });
    addop("count", [=] { int p = a(); V o = withBg(order()); num("addCount", {p}, o, {(int)Cudd_CountMinterm(dd, reg[p], n), Cudd_CountLeaves(reg[p]), Cudd_DagSize(reg[p]), (int)Cudd_CountPath(reg[p]), (int)Cudd_CountPathsToNonZero(reg[p])}); });
    addop("support", [=] { int p = a(), q = a(); int* ix = nullptr; int c = Cudd_SupportIndices(dd, reg[p], &ix); int m = 0; for (int i = 0; i < c; i++) m |= 1 << ix[i]; FREE(ix);
      DdNode* two[2] = {reg[p], reg[q]}; int c2 = Cudd_VectorSupportIndices(dd, two, 2, &ix); int m2 = 0; for (int i = 0; i < c2; i++) m2 |= 1 << ix[i]; FREE(ix); num("addSupport", {p, q}, {}, {m, Cudd_SupportSize(dd, reg[p]), m2}); });
    addop("eval", [=] { int p = a(), m = R(M); V in(n); for (int i = 0; i < n; i++) in[i] = (m >> i) & 1; num("addEval", {p}, {m}, {Mach::num(Cudd_V(Cudd_Eval(dd, reg[p], in.data())))}); });
    addop("cubes", [=] { int p = a(); V y; DdGen* g; int* c; CUDD_VALUE_TYPE v; bool dyn = autodyn; Cudd_AutodynDisable(dd);
      for (g = Cudd_FirstCube(dd, reg[p], &c, &v); !Cudd_IsGenEmpty(g); Cudd_NextCube(g, &c, &v)) { int on = 0, dc = 0; for (int i = 0; i < n; i++) { if (c[i] == 1) on |= 1 << i; if (c[i] == 2) dc |= 1 << i; } y.push_back(on); y.push_back(dc); y.push_back(Mach::num(v)); }
      Cudd_GenFree(g); if (dyn) Cudd_AutodynEnable(dd, CUDD_REORDER_SAME); num("addCubes", {p}, withBg(order()), y); });
    addop("load", [=] { loadAdd(); }); addop("load", [=] { loadAdd(); }); addop("load", [=] { loadAdd(); });
    addop("var", [=] { int i = R(n); keep("var", {}, {i}, Cudd_addIthVar(dd, i)); });
  }
};
