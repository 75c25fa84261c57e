// The ZDD operations of the machine: registers hold families of sets (bit masks over the ZDD variables).
#pragma once
#include "cudd_addops.hpp"

struct Zdd : Bdd {
  int zn = 0; bool cover = false, aligned = false, zdyn = false; 
  virtual V fun(DdNode* f) { return zdd(f, zn); }
  virtual DdNode* zeroN() { return DD_ZERO(dd); }
  static const Cudd_ReorderingType* zm(int& k) { static const Cudd_ReorderingType Z[] = {CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_SYMM_SIFT_CONV, CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT}; k = 6; return Z; }

  void startZ(int n_, int k, bool cov) {
    n = n_; M = 1 << n; nvars = n; cover = cov; zn = cov ? 2 * n : n;
    static const int SL[] = {2, 8, 32, 256}; static const int CA[] = {2, 16, 64, 1024, 262144};
    dd = Cudd_Init(0, 0, SL[R(4)], CA[R(5)], 0); Cudd_SetStdout(dd, fopen("/dev/null", "w"));
    for (int i = 0; i < n; i++) Cudd_bddIthVar(dd, i);
    if (P(40)) { V p = perm(n); Cudd_ShuffleHeap(dd, p.data()); }
    Cudd_zddVarsFromBddVars(dd, cov ? 2 : 1);
    if (cov || P(50)) { aligned = true; Cudd_zddRealignEnable(dd); Cudd_bddRealignEnable(dd); }
    if (P(30)) Cudd_SetMaxCacheHard(dd, 64);
    if (P(20)) Cudd_SetMinHit(dd, 1 + R(60));
    if (P(30)) Cudd_SetSiftMaxVar(dd, 1 + R(8));
    if (P(30)) Cudd_SetSiftMaxSwap(dd, 1 + R(40));
    if (P(30)) Cudd_SetMaxGrowth(dd, 1.0 + R(10) / 10.0);
    reg.assign(k, nullptr); id.assign(k, 0); val.assign(k, V(1 << zn, 0));
    for (int q = 0; q < k; q++) { reg[q] = DD_ZERO(dd); Cudd_Ref(reg[q]); id[q] = idOf(reg[q]); }
    all("init", {zn, n, cov});
  }
  void dyn() { if (autodyn) Cudd_SetNextReordering(dd, std::max(11u, Cudd_ReadKeys(dd) - Cudd_ReadDead(dd) + R(12)));
    if (zdyn) Cudd_SetNextReordering(dd, std::max(11u, dd->keysZ - dd->deadZ + R(8))); }
  void zput(const char* o, int d, V aa, V x, DdNode* r, V y = {}) {
    Ev e; e.o = o; e.x = x; for (int q : aa) e.a.push_back(q + 1);
    if (!r) { e.y = {-1}; emit(e); return; }
    Cudd_Ref(r); e.r = {fun(r)}; e.y = y; e.i = idOf(r);
    if (d >= 0) { e.d = d + 1; Cudd_RecursiveDerefZdd(dd, reg[d]); reg[d] = r; id[d] = e.i; val[d] = e.r[0]; emit(e); }
    else { emit(e); Cudd_RecursiveDerefZdd(dd, r); }
    dyn();
  }
  void bput(const char* o, V aa, V x, DdNode* r) { // a BDD result
    Ev e; e.o = o; e.x = x; for (int q : aa) e.a.push_back(q + 1);
    if (!r) { e.y = {-1}; emit(e); return; }
    Cudd_Ref(r); e.r = {bdd(r)}; emit(e); Cudd_RecursiveDeref(dd, r); dyn();
  }
  bool proper(int m) { for (int i = 0; i < n; i++) if (((m >> (2 * i)) & 3) == 3) return false; return true; }
  V randFam() {
    V t(1 << zn, 0); int k = R(6);
    int c = k == 0 ? R(3) : k < 4 ? 1 + R(8) : 1 + R(24);
    for (int i = 0; i < c; i++) { int m = R(1 << zn); if (P(40)) m &= R(1 << zn); if (cover) for (int v = 0; v < n; v++) if (((m >> (2 * v)) & 3) == 3) m &= ~(1 << (2 * v + R(2))); t[m] = 1; }
    if (k == 5 && !cover) for (auto& b : t) b = R(2);
    return t;
  }
  DdNode* buildZ(const V& t) { // referenced
    DdNode* f = DD_ZERO(dd); Cudd_Ref(f);
    for (int m = 0; m < (1 << zn); m++) if (t[m]) { DdNode* s = DD_ONE(dd); Cudd_Ref(s);
      V p = perm(zn); for (int v : p) if ((m >> v) & 1) { DdNode* u = Cudd_zddChange(dd, s, v); Cudd_Ref(u); Cudd_RecursiveDerefZdd(dd, s); s = u; }
      DdNode* g = Cudd_zddUnion(dd, f, s); Cudd_Ref(g); Cudd_RecursiveDerefZdd(dd, f); Cudd_RecursiveDerefZdd(dd, s); f = g; }
    return f;
  }
  virtual V randVal() { return randFam(); }
  virtual DdNode* make(const V& t) { return buildZ(t); }
  virtual void drop(DdNode* f) { Cudd_RecursiveDerefZdd(dd, f); }
  virtual void store(int d, const V& t, DdNode* f) { Cudd_Deref(f); zput("load", d, {}, t, f); }
  virtual void clear(int d) { Cudd_RecursiveDerefZdd(dd, reg[d]); reg[d] = zeroN(); Cudd_Ref(reg[d]); id[d] = idOf(reg[d]); Ev e; e.o = "zero"; e.d = d + 1; e.r = {fun(reg[d])}; e.i = id[d]; val[d] = e.r[0]; emit(e); }
  V zorder() { V p(zn); for (int i = 0; i < zn; i++) p[Cudd_ReadPermZdd(dd, i)] = i; return p; }
  void order() { if (!aligned) return; V x, y = zorder(); for (int i = 0; i < n; i++) { int b = Cudd_ReadInvPerm(dd, i); x.push_back(b); if (cover) x.push_back(-1); } for (size_t i = 0; cover && i + 1 < y.size(); i += 2) { y[i] = y[i] / 2 == y[i + 1] / 2 ? y[i] / 2 : -9; y[i + 1] = -1; } Ev e; e.o = "order"; e.x = x; e.y = y; emit(e); }
  bool sameOrder() { for (int i = 0; i < n; i++) if (Cudd_ReadPermZdd(dd, i) != Cudd_ReadPerm(dd, i)) return false; return true; }
  bool adjacent() { for (int i = 0; i < n; i++) if (Cudd_ReadPermZdd(dd, 2 * i + 1) != Cudd_ReadPermZdd(dd, 2 * i) + 1 || Cudd_ReadPermZdd(dd, 2 * i) != 2 * Cudd_ReadPerm(dd, i)) return false; return true; }
  void znoise() {
    int k = R(7);
    if (k == 0) { cuddGarbageCollect(dd, 1); all("gc"); }
    else if (k <= 2) { int c; auto z = zm(c); int m = R(c); if (cover && m >= 4) m = 0; int rc = Cudd_zddReduceHeap(dd, z[m], R(2) ? 0 : R(20)); all("reorder", {(int)z[m], rc}); order(); }
    else if (k == 3) {
      if (aligned) { if (P(50)) { int c; auto z = zm(c); if (cover) c = 4; int rc = Cudd_ReduceHeap(dd, P(50) ? CUDD_REORDER_SIFT : CUDD_REORDER_RANDOM, 0); all("reorder", {0, rc}); (void)z; order(); } else if (!cover) { V p = perm(zn); Cudd_zddShuffleHeap(dd, p.data()); Cudd_ShuffleHeap(dd, p.data()); all("shuffle"); Ev e; e.o = "order"; e.x = p; e.y = zorder(); emit(e); order(); } }
      else { V p = perm(zn); Cudd_zddShuffleHeap(dd, p.data()); all("shuffle"); Ev e; e.o = "order"; e.x = p; e.y = zorder(); emit(e); } }
    else if (k == 4) { zdyn = !zdyn; if (zdyn) { int c; auto z = zm(c); Cudd_AutodynEnableZdd(dd, z[R(cover ? 4 : c)]); } else Cudd_AutodynDisableZdd(dd); }
    else if (k == 5) { int d = a(); Cudd_RecursiveDerefZdd(dd, reg[d]); reg[d] = R(2) ? DD_ONE(dd) : DD_ZERO(dd); Cudd_Ref(reg[d]); id[d] = idOf(reg[d]); Ev e; e.o = reg[d] == DD_ONE(dd) ? "one" : "zero"; e.d = d + 1; e.r = {fun(reg[d])}; e.i = id[d]; val[d] = e.r[0]; emit(e); }
    else load();
    dyn();
  }
  int card(int q) { return cnt(val[q]); }
  void ops7() {
    typedef DdNode* (*F2)(DdManager*, DdNode*, DdNode*);
    static const pair<const char*, F2> B[] = {{"union", Cudd_zddUnion}, {"intersect", Cudd_zddIntersect}, {"diff", Cudd_zddDiff}};
    for (auto& b : B) { auto f = b.second; auto nm = b.first; addop(nm, [=] { int p = a(), q = a(); zput(nm, a(), {p, q}, {}, f(dd, reg[p], reg[q])); }); }
    addop("ite", [=] { int p = a(), q = a(), r = a(); zput("ite", a(), {p, q, r}, {}, Cudd_zddIte(dd, reg[p], reg[q], reg[r])); });
    addop("diffConst", [=] { int p = a(), q = a(); DdNode* r = Cudd_zddDiffConst(dd, reg[p], reg[q]); num("diffConst", {p, q}, {}, {r == DD_ZERO(dd)}); });
    addop("zload", [=] { load(); }); addop("zload", [=] { load(); });
    addop("count", [=] { int p = a(); num("zcount", {p}, zorder(), {Cudd_zddCount(dd, reg[p]), (int)Cudd_zddCountDouble(dd, reg[p]), Cudd_zddDagSize(reg[p]), (int)Cudd_zddCountMinterm(dd, reg[p], zn)}); });
    if (!cover) addop("support", [=] { int p = a(); DdNode* r = Cudd_zddSupport(dd, reg[p]); if (!r) { num("zsupport", {p}, {}, {-1}); return; } Cudd_Ref(r); int m = 0; for (DdNode* g = r; !cuddIsConstant(Cudd_Regular(g)); g = cuddT(Cudd_Regular(g))) m |= 1 << Cudd_Regular(g)->index; num("zsupport", {p}, {}, {m}); Cudd_RecursiveDeref(dd, r); });
    addop("paths", [=] { int p = a(); V y; DdGen* g; int* c; bool z = zdyn; Cudd_AutodynDisableZdd(dd);
      Cudd_zddForeachPath(dd, reg[p], g, c) { int m = 0; for (int i = 0; i < zn; i++) if (c[i] == 1) m |= 1 << i; y.push_back(m); }
      if (z) Cudd_AutodynEnableZdd(dd, CUDD_REORDER_SAME); num("zpaths", {p}, {}, y); });
    if (!cover) {
      addop("subset1", [=] { int p = a(), v = R(zn); zput("subset1", a(), {p}, {v}, Cudd_zddSubset1(dd, reg[p], v)); });
      addop("subset0", [=] { int p = a(), v = R(zn); zput("subset0", a(), {p}, {v}, Cudd_zddSubset0(dd, reg[p], v)); });
      addop("change", [=] { int p = a(), v = R(zn); zput("change", a(), {p}, {v}, Cudd_zddChange(dd, reg[p], v)); });
      addop("unateProduct", [=] { int p = a(), q = a(); if (card(p) * card(q) > 1200) return; zput("unateProduct", a(), {p, q}, {}, Cudd_zddUnateProduct(dd, reg[p], reg[q])); });
      for (int w = 0; w < 2; w++) addop("divide", [=] { int p = a(), q = a(); if (!card(q)) return; if (P(60)) { int k = a(), l = a(); if (card(k) && card(k) * card(l) <= 400) { zput("unateProduct", p, {k, l}, {}, Cudd_zddUnateProduct(dd, reg[k], reg[l])); q = k; if (q == p || !card(q)) return; } }
        zput("divide", a(), {p, q}, {}, w ? Cudd_zddDivide(dd, reg[p], reg[q]) : Cudd_zddDivideF(dd, reg[p], reg[q])); });
      addop("ithVar", [=] { int v = R(zn); zput("ithVar", a(), {}, {v}, Cudd_zddIthVar(dd, v)); });
      addop("fromBdd", [=] { if (!sameOrder() || zdyn && !aligned) return; V t = randFun(); DdNode* b = build(t, n - 1, 0); if (sameOrder()) zput("fromBdd", a(), {}, t, Cudd_zddPortFromBdd(dd, b)); Cudd_RecursiveDeref(dd, b); });
      addop("toBdd", [=] { if (!sameOrder() || zdyn && !aligned) return; int p = a(); bput("toBdd", {p}, {}, Cudd_zddPortToBdd(dd, reg[p])); });
    } else {
      addop("product", [=] { int p = a(), q = a(); if (card(p) * card(q) > 900) return; zput("product", a(), {p, q}, {}, Cudd_zddProduct(dd, reg[p], reg[q])); });
      for (int w = 0; w < 2; w++) addop("weakDiv", [=] { int p = a(), q = a(); if (!card(q)) return; if (P(60)) { int k = a(), l = a(); if (card(k) && card(k) * card(l) <= 300) { zput("product", p, {k, l}, {}, Cudd_zddProduct(dd, reg[k], reg[l])); q = k; if (q == p || !card(q)) return; } }
        zput("weakDiv", a(), {p, q}, {}, w ? Cudd_zddWeakDiv(dd, reg[p], reg[q]) : Cudd_zddWeakDivF(dd, reg[p], reg[q])); });
      addop("zcomplement", [=] { int p = a(); if (!adjacent()) return; zput("zcomplement", a(), {p}, {}, Cudd_zddComplement(dd, reg[p])); });
      addop("coverFun", [=] { int p = a(); if (!adjacent()) return; bput("coverFun", {p}, {}, Cudd_MakeBddFromZddCover(dd, reg[p])); });
      addop("isop", [=] { if (!adjacent()) return; V l = randFun(), u = randFun(); if (P(60)) { for (int i = 0; i < M; i++) u[i] |= l[i]; } else { u = l; }
        DdNode* L = build(l, n - 1, 0); DdNode* U = build(u, n - 1, 0); DdNode* I = nullptr; V x = l; x.insert(x.end(), u.begin(), u.end());
        if (adjacent()) { DdNode* r = Cudd_zddIsop(dd, L, U, &I); if (!r) num("isop", {}, x, {-1}); else { Cudd_Ref(r); Cudd_Ref(I); Ev e; e.o = "isop"; e.x = x; e.r = {bdd(r)}; emit(e);
          V y = e.r[0]; Cudd_RecursiveDeref(dd, r); x.insert(x.end(), y.begin(), y.end()); Cudd_Deref(I); zput("isopCover", a(), {}, x, I); } }
        Cudd_RecursiveDeref(dd, L); Cudd_RecursiveDeref(dd, U); });
      addop("coverStrings", [=] { int p = a(); V y; DdGen* g; int* c; bool z = zdyn; Cudd_AutodynDisableZdd(dd);
        Cudd_zddForeachPath(dd, reg[p], g, c) { char* s = Cudd_zddCoverPathToString(dd, c, NULL); int m = 0; for (int i = 0; i < n; i++) m |= (s[i] == '1' ? 1 : s[i] == '0' ? 2 : s[i] == '-' ? 0 : 3) << (2 * i); FREE(s); y.push_back(m); }
        if (z) Cudd_AutodynEnableZdd(dd, CUDD_REORDER_SAME); num("zpaths", {p}, {}, y); });
    }
  }
  void finishZ() {
    for (auto f : reg) Cudd_RecursiveDerefZdd(dd, f);
    Ev e; e.o = "zeroRef"; e.y = {Cudd_CheckZeroRef(dd)}; emit(e);
    e.o = "check"; e.y = {consistent()}; emit(e);
    FILE* f = Cudd_ReadStdout(dd); Cudd_Quit(dd); fclose(f);
  }
};
