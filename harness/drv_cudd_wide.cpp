// Decision diagrams over many variables (tens to hundreds): functions are chains  f := f op x  over distinct
// variables, combined further, and read off at the points listed in a history's first event.
//   drv_cudd_wide MODE SEED HISTORIES EVENTS OUT     MODE: ops | quant | order | approx | count | io
#include <sys/resource.h>
#include <sys/stat.h>
#include "cudd_mach.hpp"
enum { AND = 1, OR, XOR, ANDN, ORN, NOT };

struct Wide : Mach {
  vector<V> pts, ch; vector<vector<char>> at; string dir; vector<std::function<void()>> ops; bool heavy = false;
  int nr() { return (int)reg.size(); }
  int a() { return R(nr()); }
  int c() { for (int g = 0; g < 40; g++) { int p = a(); if (!ch[p].empty()) return p; } int d = a(); chain(d, someChain()); return d; }
  V perm(int k) { V p(k); for (int i = 0; i < k; i++) p[i] = i; std::shuffle(p.begin(), p.end(), rng); return p; }
  static int val(const V& q, const vector<char>& t) {
    int f = 1; for (size_t i = 0; i < q.size(); i += 2) { int x = t[q[i + 1]]; switch (q[i]) { case AND: f &= x; break; case OR: f |= x; break; case XOR: f ^= x; break; case ANDN: f &= !x; break; case ORN: f |= !x; break; default: f = !f; } }
    return f;
  }
  V someChain() { // x: op, variable, op, variable, ...
    int k = P(15) ? n : P(30) ? 1 + R(4) : 1 + R(n), kind = R(7), xors = 0; V v = perm(n); v.resize(k); bool sorted = n > 200 || P(55);
    if (sorted) std::sort(v.begin(), v.end(), [&](int x, int y) { return Cudd_ReadPerm(dd, x) > Cudd_ReadPerm(dd, y); });
    V q;
    for (int i = 0; i < k; i++) {
      int o = kind == 0 ? XOR : kind == 1 ? (P(50) ? AND : ANDN) : kind == 2 ? (P(50) ? OR : ORN) : 1 + R(5);
      if (kind >= 5 && q.size() && P(96)) o = q[q.size() - 2] == NOT ? q[std::max(0, (int)q.size() - 4)] : q[q.size() - 2]; // long runs of one operator
      if (o == NOT) o = AND;
      if (o == XOR && kind && !sorted && ++xors > 4) o = AND;
      if (kind > 1 && P(4)) { q.push_back(NOT); q.push_back(0); }
      q.push_back(o); q.push_back(v[i]);
    }
    if (P(10)) { q.push_back(NOT); q.push_back(0); }
    return q;
  }
  // a point at which the value of the chain depends on its i-th variable
  vector<char> point(const V& q) {
    vector<char> t(n); for (auto& x : t) x = R(2);
    int s = P(30) ? 0 : 2 * R(q.size() / 2);
    for (size_t i = s; i < q.size(); i += 2) { int o = q[i]; if (o == AND || o == ORN) t[q[i + 1]] = 1; if (o == OR || o == ANDN) t[q[i + 1]] = 0; }
    if (P(60)) { int x = q[s + 1]; t[x] = !t[x]; }
    return t;
  }
  V read(DdNode* f, DdManager* m = nullptr) {
    V r; for (auto& t : at) { int k = Cudd_IsComplement(f); DdNode* g = Cudd_Regular(f); while (!cuddIsConstant(g)) { DdNode* e = t[g->index] ? cuddT(g) : cuddE(g); if (Cudd_IsComplement(e)) { k ^= 1; e = Cudd_Regular(e); } g = e; } r.push_back(cuddV(g) != 1.0 ? -7 : 1 - k); }
    return r;
  }
  DdNode* lit(int o, int x) { DdNode* v = Cudd_bddIthVar(dd, x); return Cudd_NotCond(v, o == ANDN || o == ORN); }
  DdNode* make(const V& q) { // referenced
    DdNode* f = DD_ONE(dd); Cudd_Ref(f);
    for (size_t i = 0; i < q.size(); i += 2) {
      DdNode* l = lit(q[i], q[i + 1]); int o = q[i]; if (o == NOT) { f = Cudd_Not(f); continue; }
      DdNode* g = o == XOR ? Cudd_bddXor(dd, f, l) : o == AND || o == ANDN ? Cudd_bddAnd(dd, f, l) : Cudd_bddOr(dd, l, f);
      if (!g) return nullptr; Cudd_Ref(g); Cudd_RecursiveDeref(dd, f); f = g;
    }
    return f;
  }
  void put(const char* o, int d, V aa, V x, DdNode* r, V y = {}, const V& q = {}, bool refd = false) {
    Ev e; e.o = o; e.x = x; for (int p : aa) e.a.push_back(p + 1);
    if (!r) { e.y = {-1}; emit(e); return; }
    if (!refd) Cudd_Ref(r);
    e.r = {read(r)}; e.y = y; e.i = idOf(r);
    if (d >= 0) { e.d = d + 1; Cudd_RecursiveDeref(dd, reg[d]); reg[d] = r; ch[d] = q; id[d] = e.i; emit(e); if (Cudd_DagSize(r) > 3000) chain(d, someChain()); }
    else { emit(e); Cudd_RecursiveDeref(dd, r); }
  }
  void chain(int d, const V& q) { DdNode* f = make(q); put("chain", d, {}, q, f, {}, q, true); }
  V levels() { V p(n); for (int i = 0; i < n; i++) p[i] = Cudd_ReadPerm(dd, i); return p; }
  void all(const char* o) { Ev e; e.o = o; e.x = levels(); for (auto f : reg) { e.r.push_back(read(f)); e.a.push_back(idOf(f)); } e.y = {Cudd_DebugCheck(dd) == 0 && Cudd_CheckKeys(dd) == 0}; emit(e); }
  void start(const string& mode) {
    static const int NS[] = {24, 31, 32, 33, 40, 53, 54, 60, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130};
    n = P(70) ? NS[R(18)] : 20 + R(111);
    if (mode == "order") n = 16 + R(50);
    if (mode == "io") { static const int BIG[] = {255, 256, 257, 300, 511, 512, 513, 700, 1023, 1024, 1025, 1100}; if (P(50)) n = BIG[R(12)]; }
    dd = Cudd_Init(n, 0, P(50) ? 4 : 256, P(50) ? 64 : 4096, 0); Cudd_SetStdout(dd, fopen("/dev/null", "w"));
    if (P(60)) { V p = perm(n); Cudd_ShuffleHeap(dd, p.data()); }
    vector<V> first; for (int i = 0; i < 6; i++) first.push_back(someChain());
    for (int i = 0; i < 24; i++) { at.push_back(point(first[R(6)])); V p; for (int x = 0; x < n; x++) if (at[i][x]) p.push_back(x); pts.push_back(p); }
    reg.assign(6, nullptr); id.assign(6, 0); ch.assign(6, V()); for (int q = 0; q < 6; q++) { reg[q] = DD_ONE(dd); Cudd_Ref(reg[q]); id[q] = idOf(reg[q]); }
    Ev e; e.o = "init"; e.a = id; e.x = levels(); e.r = pts; e.y = {n}; emit(e);
    for (int q = 0; q < 6; q++) chain(q, first[q]);
  }
  void noise() {
    int k = R(heavy ? 6 : 2); static const int M[] = {CUDD_REORDER_SIFT, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_GROUP_SIFT, CUDD_REORDER_WINDOW3, CUDD_REORDER_WINDOW2_CONV, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT_CONV, CUDD_REORDER_GROUP_SIFT_CONV, CUDD_REORDER_WINDOW4, CUDD_REORDER_LAZY_SIFT};
    if (k == 0) { cuddGarbageCollect(dd, 1); all("gc"); }
    else if (k < 4) { Cudd_ReduceHeap(dd, (Cudd_ReorderingType)M[R(11)], 0); all("reorder"); }
    else { V p = levels(), inv(n); for (int i = 0; i < n; i++) inv[p[i]] = i; int s = R(n - 1), w = std::min(n - s, 2 + R(5)); std::shuffle(inv.begin() + s, inv.begin() + s + w, rng); Cudd_ShuffleHeap(dd, inv.data()); all("shuffle"); }
  }
  void finish() {
    all("gc"); for (auto f : reg) Cudd_RecursiveDeref(dd, f);
    Ev z; z.o = "zeroRef"; z.y = {Cudd_CheckZeroRef(dd)}; emit(z); Cudd_Quit(dd);
  }
  V some(int k) { V v = perm(n); v.resize(k); return v; }
  V near(int p, int k) { V v; for (size_t i = 1; i < ch[p].size(); i += 2) if (ch[p][i - 1] != NOT) v.push_back(ch[p][i]); std::shuffle(v.begin(), v.end(), rng); if ((int)v.size() > k) v.resize(k); if (v.empty()) v.push_back(R(n)); return v; } // variables of the chain
  DdNode* cube(const V& v) { V q; for (int x : v) { q.push_back(AND); q.push_back(x); } return make(q); }
  // a decimal numeral as digits in base 10000, least significant first
  static V limbs(const string& s) { V r; for (int e = s.size(); e > 0; e -= 4) r.push_back(atoi(s.substr(std::max(0, e - 4), std::min(4, e)).c_str())); while (r.size() && r.back() == 0) r.pop_back(); return r; }
  static V limbs(long double v) { char b[6000]; snprintf(b, sizeof b, "%.0Lf", v); return std::isfinite((double)v) ? limbs(string(b)) : V{-1}; }
  void num(const char* o, V aa, V x, V y) { Ev e; e.o = o; e.x = x; e.y = y; for (int q : aa) e.a.push_back(q + 1); emit(e); }
  static string text(std::function<void(FILE*)> f) { char* b = nullptr; size_t l = 0; FILE* m = open_memstream(&b, &l); f(m); fclose(m); string s(b, l); free(b); return s; }
  static string digits(const string& s) { string r; for (char ch : s) if (ch >= '0' && ch <= '9') r += ch; return r; }

  void opsOps() {
    ops.push_back([=] { chain(a(), someChain()); });
    typedef DdNode* (*F)(DdManager*, DdNode*, DdNode*);
    static const pair<const char*, F> B[] = {{"and", Cudd_bddAnd}, {"or", Cudd_bddOr}, {"nand", Cudd_bddNand}, {"nor", Cudd_bddNor}, {"xor", Cudd_bddXor}, {"xnor", Cudd_bddXnor}};
    for (auto& b : B) ops.push_back([=] { int p = a(), q = a(); put(b.first, a(), {p, q}, {}, b.second(dd, reg[p], reg[q])); });
    ops.push_back([=] { int p = a(), q = a(), r = a(); put("ite", a(), {p, q, r}, {}, Cudd_bddIte(dd, reg[p], reg[q], reg[r])); });
    ops.push_back([=] { int p = a(); put("not", a(), {p}, {}, Cudd_Not(reg[p])); });
    ops.push_back([=] { int p = c(); DdNode* f = make(ch[p]); put("again", -1, {p}, {}, f, {}, {}, true); });
    ops.push_back([=] { int p = a(), q = a(); DdNode* f = Cudd_bddAnd(dd, reg[p], reg[q]); if (!f) return; Cudd_Ref(f); num("leq", {p, q}, {}, {Cudd_bddLeq(dd, f, reg[q]), Cudd_bddLeq(dd, reg[p], reg[q]), idOf(f) == idOf(reg[p])}); Cudd_RecursiveDeref(dd, f); });
    ops.push_back([=] { int p = a(); V r; for (auto& t : at) { V in(t.begin(), t.end()); r.push_back(Cudd_Eval(dd, reg[p], in.data()) == DD_ONE(dd)); } Ev e; e.o = "eval"; e.a = {p + 1}; e.r = {r}; emit(e); });
    // cubes, built in several ways
    ops.push_back([=] { int k = P(40) ? n : 1 + R(n); V v = some(k), q, ph(k); vector<DdNode*> vs; for (int i = 0; i < k; i++) { ph[i] = R(2); q.push_back(ph[i] ? AND : ANDN); q.push_back(v[i]); vs.push_back(Cudd_bddIthVar(dd, v[i])); }
      DdNode* f; if (P(40)) f = Cudd_bddComputeCube(dd, vs.data(), ph.data(), k); else if (P(50)) { V arr(n, 2); for (int i = 0; i < k; i++) arr[v[i]] = ph[i]; f = Cudd_CubeArrayToBdd(dd, arr.data()); } else { for (int i = 0; i < k; i++) q[2 * i] = AND; f = Cudd_IndicesToCube(dd, v.data(), k); }
      put("chain", a(), {}, q, f, {}, q); });
    ops.push_back([=] { int N = 1 + R(n / 2), k = R(2); V x = levels(), o(n); for (int i = 0; i < n; i++) o[x[i]] = i; // x1 y1 x2 y2 ... down the order
      V v; int s = R(n - 2 * N + 1); for (int i = 0; i < 2 * N; i++) v.push_back(o[s + i]); vector<DdNode*> X, Y; V ev; for (int i = 0; i < N; i++) { X.push_back(Cudd_bddIthVar(dd, v[2 * i])); Y.push_back(Cudd_bddIthVar(dd, v[2 * i + 1])); }
      put(k ? "xgty" : "xeqy", a(), {}, v, k ? Cudd_Xgty(dd, N, nullptr, X.data(), Y.data()) : Cudd_Xeqy(dd, N, X.data(), Y.data())); });
    ops.push_back([=] { int p = a(); DdManager* e = Cudd_Init(n, 0, 16, 64, 0); V o = levels(), inv(n); for (int i = 0; i < n; i++) inv[o[i]] = i; if (n > 4) { int s = R(n - 4); std::shuffle(inv.begin() + s, inv.begin() + s + 4, rng); } Cudd_ShuffleHeap(e, inv.data());
      DdNode* t = Cudd_bddTransfer(dd, e, reg[p]); if (t) { Cudd_Ref(t); put("again", -1, {p}, {}, Cudd_bddTransfer(e, dd, t)); Cudd_RecursiveDeref(e, t); } Cudd_Quit(e); });
  }
  void opsQuant() {
    auto vars = [=](int p, int k) { return P(70) ? near(p, k) : some(k); };
    for (int k = 0; k < 3; k++) ops.push_back([=] { int p = c(); V v = vars(p, 1 + R(3)); DdNode* b = cube(v); put(k ? "exist" : "univ", a(), {p}, v, k ? Cudd_bddExistAbstract(dd, reg[p], b) : Cudd_bddUnivAbstract(dd, reg[p], b)); Cudd_RecursiveDeref(dd, b); });
    for (int k = 0; k < 2; k++) ops.push_back([=] { int p = c(), q = c(); V v = vars(p, 1 + R(3)); DdNode* b = cube(v); put(k ? "andAbs" : "xorAbs", a(), {p, q}, v, k ? Cudd_bddAndAbstract(dd, reg[p], reg[q], b) : Cudd_bddXorExistAbstract(dd, reg[p], reg[q], b)); Cudd_RecursiveDeref(dd, b); });
    ops.push_back([=] { int p = c(); V v = vars(p, 1 + R(n)), x, q; for (int i : v) { int s = R(2); x.push_back(i); x.push_back(s); q.push_back(s ? AND : ANDN); q.push_back(i); } DdNode* b = make(q); put("cofactor", a(), {p}, x, Cudd_Cofactor(dd, reg[p], b)); Cudd_RecursiveDeref(dd, b); });
    ops.push_back([=] { int p = c(), q = c(); V v = near(p, 1); put("compose", a(), {p, q}, v, Cudd_bddCompose(dd, reg[p], reg[q], v[0])); });
    ops.push_back([=] { int p = c(); V m = perm(n); if (P(80)) { m = V(n); for (int i = 0; i < n; i++) m[i] = i; int k = R(5); for (int i = 0; i < k; i++) std::swap(m[near(p, 1)[0]], m[R(n)]); } V q = ch[p]; int xs = 0; for (size_t i = 0; i < q.size(); i += 2) { if (q[i] == XOR) xs++; if (q[i] != NOT) q[i + 1] = m[q[i + 1]]; }
      if (xs > 14) return; put("permute", a(), {p}, m, Cudd_bddPermute(dd, reg[p], m.data()), {}, q); });
    ops.push_back([=] { int p = c(); V v = vars(p, 1); put("boolDiff", a(), {p}, v, Cudd_bddBooleanDiff(dd, reg[p], v[0])); });
  }
  void opsApprox() {
    auto th = [=] { static const int T[] = {0, 1, 5, 20, 60, 200}; return T[R(6)]; };
    ops.push_back([=] { int p = a(), t = th(), k = R(6); DdNode* f = reg[p]; if (k == 1 || k == 2) t += n + 1;
      put("sub", a(), {p}, {k, t}, k == 0 ? Cudd_SubsetHeavyBranch(dd, f, n, t) : k == 1 ? Cudd_SubsetShortPaths(dd, f, n, t, R(2)) : k == 2 ? Cudd_SubsetCompress(dd, f, n, t) : k == 3 ? Cudd_UnderApprox(dd, f, n, t, R(2), 1.0) : k == 4 ? Cudd_RemapUnderApprox(dd, f, n, t, 1.0) : Cudd_BiasedUnderApprox(dd, f, f, n, t, 1.0, 1.0)); });
    ops.push_back([=] { int p = a(), t = th(), k = R(5); DdNode* f = reg[p]; if (k == 1 || k == 2) t += n + 1;
      put("sup", a(), {p}, {k, t}, k == 0 ? Cudd_SupersetHeavyBranch(dd, f, n, t) : k == 1 ? Cudd_SupersetShortPaths(dd, f, n, t, R(2)) : k == 2 ? Cudd_SupersetCompress(dd, f, n, t) : k == 3 ? Cudd_OverApprox(dd, f, n, t, R(2), 1.0) : Cudd_RemapOverApprox(dd, f, n, t, 1.0)); });
    ops.push_back([=] { int p = a(), q = c(), k = R(5); if (Cudd_Regular(reg[q]) == DD_ONE(dd)) return; DdNode *f = reg[p], *g = reg[q];
      put("care", a(), {p, q}, {k}, k == 0 ? Cudd_bddConstrain(dd, f, g) : k == 1 ? Cudd_bddRestrict(dd, f, g) : k == 2 ? Cudd_bddMinimize(dd, f, g) : k == 3 ? Cudd_bddLICompaction(dd, f, g) : Cudd_bddNPAnd(dd, f, g)); });
    ops.push_back([=] { int p = a(), q = a(), s = a(); if (s == p) return; put("or", s, {p, q}, {}, Cudd_bddOr(dd, reg[p], reg[q])); if (!Cudd_bddLeq(dd, reg[p], reg[s])) return; put("between", a(), {p, s}, {0}, Cudd_bddSqueeze(dd, reg[p], reg[s])); });
  }
  void opsCount() {
    for (int rep = 0; rep < 2; rep++) {
    ops.push_back([=] { int p = c(); int m = n + (P(30) ? R(40) : 0); int len; DdApaNumber d = Cudd_ApaCountMinterm(dd, reg[p], m, &len); if (!d) return num("count", {p}, {m}, {-1});
      string s = text([&](FILE* f) { Cudd_ApaPrintDecimal(f, len, d); }); num("count", {p}, {m}, limbs(digits(s)));
      char* dec = Cudd_ApaStringDecimal(len, d); num("count", {p}, {m}, limbs(string(dec))); free(dec);
      s = text([&](FILE* f) { Cudd_ApaPrintHex(f, len, d); }); V h; for (int i = s.size() - 1; i >= 0; i--) if (isxdigit(s[i])) h.push_back(s[i] <= '9' ? s[i] - '0' : (s[i] | 32) - 'a' + 10); num("hex", {p}, {m}, h);
      free(d); });
    ops.push_back([=] { int p = c(); int m = n + (P(30) ? R(40) : 0); num("near", {p}, {m}, limbs((long double)Cudd_CountMinterm(dd, reg[p], m))); num("near", {p}, {m}, limbs(Cudd_LdblCountMinterm(dd, reg[p], m)));
      EpDouble* e = EpdAlloc(); Cudd_EpdCountMinterm(dd, reg[p], m, e); char s[200]; EpdGetString(e, s); EpdFree(e); double man; int ex; char* q = strchr(s, 'e'); if (!q) return num("float", {p}, {m}, {-1}); *q = 0; man = atof(s); ex = atoi(q + 1); num("float", {p}, {m}, {man == 0 ? 0 : (int)std::floor(man * 10000000 + .5), ex}); });
    ops.push_back([=] { int p = c(); num("paths", {p}, {}, limbs((long double)Cudd_CountPathsToNonZero(reg[p]))); num("allpaths", {p}, {}, limbs((long double)Cudd_CountPath(reg[p]))); num("size", {p}, {}, {Cudd_DagSize(reg[p]), Cudd_CountLeaves(reg[p])}); });
    }
    ops.push_back([=] { chain(a(), someChain()); });
    ops.push_back([=] { int p = c(); int* x; int k = Cudd_SupportIndices(dd, reg[p], &x); V v(x, x + k); free(x); num("support", {p}, {}, v); v.clear(); DdNode* s = Cudd_Support(dd, reg[p]); Cudd_Ref(s); for (DdNode* g = s; !cuddIsConstant(g); g = cuddT(g)) v.push_back(g->index); std::sort(v.begin(), v.end()); num("support", {p}, {}, v); Cudd_RecursiveDeref(dd, s); num("supportSize", {p}, {}, {Cudd_SupportSize(dd, reg[p])}); });
    ops.push_back([=] { int p = c(), q = c(); DdNode* F[] = {reg[p], reg[q]}; int* x; int k = Cudd_VectorSupportIndices(dd, F, 2, &x); V v(x, x + k); free(x); num("support", {p, q}, {}, v); });
    ops.push_back([=] { int p = c(), q = c(); DdNode* c3[3]; if (!Cudd_ClassifySupport(dd, reg[p], reg[q], c3, c3 + 1, c3 + 2)) return; Ev e; e.o = "classify"; e.a = {p + 1, q + 1}; for (auto s : c3) Cudd_Ref(s); for (auto s : c3) { V v; for (DdNode* g = s; !cuddIsConstant(g); g = cuddT(g)) v.push_back(g->index); e.r.push_back(v); } emit(e); for (auto s : c3) Cudd_RecursiveDeref(dd, s); });
    // cubes below a function: 0, 1 or 2 (free) per variable
    ops.push_back([=] { int p = c(); if (reg[p] == Cudd_Not(DD_ONE(dd))) return; int k = R(5); V x(n, 2); vector<char> s(n + 1); CUDD_VALUE_TYPE val;
      if (k == 0) { Cudd_bddPickOneCube(dd, reg[p], s.data()); for (int i = 0; i < n; i++) x[i] = s[i]; }
      else if (k == 1) { int* cb; DdGen* g = Cudd_FirstCube(dd, reg[p], &cb, &val); if (g) { for (int i = 0; i < n; i++) x[i] = cb[i]; Cudd_GenFree(g); } }
      else { vector<DdNode*> vs; for (int i = 0; i < n; i++) vs.push_back(Cudd_bddIthVar(dd, i)); int len; DdNode* f = k == 2 ? Cudd_bddPickOneMinterm(dd, reg[p], vs.data(), n) : k == 3 ? Cudd_LargestCube(dd, reg[p], &len) : Cudd_bddMakePrime(dd, Cudd_LargestCube(dd, reg[p], &len), reg[p]); if (!f) return num("cube", {p}, {}, {-1}); Cudd_Ref(f);
        DdNode* g = f; while (!cuddIsConstant(Cudd_Regular(g))) { DdNode* r = Cudd_Regular(g); DdNode *t = Cudd_NotCond(cuddT(r), g != r), *e = Cudd_NotCond(cuddE(r), g != r); int b = e == Cudd_Not(DD_ONE(dd)); x[r->index] = b; g = b ? t : e; } Cudd_RecursiveDeref(dd, f); }
      num("cube", {p}, {k}, x); });
  }
  void opsIo() {
    ops.push_back([=] { chain(a(), someChain()); });
    for (int rep = 0; rep < 3; rep++) ops.push_back([=] { // store, and load into this manager or another one
      int p = c(), q = c(); bool arr = P(40), txt = P(50); string f = dir + "/f"; bool named = P(40), ids = P(40); vector<string> names; vector<char*> np; V aux(n); for (int i = 0; i < n; i++) { names.push_back("v" + std::to_string(i * 7 % 1000) + "_" + std::to_string(i)); aux[i] = 5 + 2 * i; } for (auto& s : names) np.push_back((char*)s.c_str());
      DdNode* F[] = {reg[p], reg[q]}; int md = txt ? DDDMP_MODE_TEXT : DDDMP_MODE_BINARY; Dddmp_VarInfoType vi = named ? DDDMP_VARNAMES : ids ? DDDMP_VARAUXIDS : P(50) ? DDDMP_VARIDS : DDDMP_VARPERMIDS;
      int rc = arr ? Dddmp_cuddBddArrayStore(dd, (char*)"w", 2, F, nullptr, np.data(), aux.data(), md, vi, (char*)f.c_str(), nullptr) : Dddmp_cuddBddStore(dd, (char*)"w", reg[p], np.data(), aux.data(), md, vi, (char*)f.c_str(), nullptr);
      num("stored", {p}, {}, {rc}); if (rc != 1) return;
      Dddmp_VarMatchType mt = named && P(60) ? DDDMP_VAR_MATCHNAMES : ids && !named && P(60) ? DDDMP_VAR_MATCHAUXIDS : DDDMP_VAR_MATCHIDS;
      DdManager* m = dd; bool other = P(50);
      if (other) { m = Cudd_Init(n, 0, 16, 64, 0); V o = levels(), inv(n); for (int i = 0; i < n; i++) inv[o[i]] = i; int s = R(n - 4); std::shuffle(inv.begin() + s, inv.begin() + s + 4, rng); Cudd_ShuffleHeap(m, inv.data()); }
      int got = P(50) ? DDDMP_MODE_DEFAULT : md; vector<DdNode*> res;
      if (arr) { DdNode** L = nullptr; int k = Dddmp_cuddBddArrayLoad(m, DDDMP_ROOT_MATCHLIST, nullptr, mt, np.data(), aux.data(), nullptr, got, (char*)f.c_str(), nullptr, &L); if (k == 2) res = {L[0], L[1]}; free(L); }
      else { DdNode* r = Dddmp_cuddBddLoad(m, mt, np.data(), aux.data(), nullptr, got, (char*)f.c_str(), nullptr); if (r) res = {r}; }
      num("loaded", {p}, {}, {(int)res.size() == (arr ? 2 : 1)});
      for (size_t i = 0; i < res.size(); i++) { int g = i ? q : p; // loaded nodes come referenced
        if (other) { Ev e; e.o = "eval"; e.a = {g + 1}; e.r = {read(res[i])}; emit(e); DdNode* t = Cudd_bddTransfer(m, dd, res[i]); put("again", -1, {g}, {}, t); Cudd_RecursiveDeref(m, res[i]); }
        else put("again", -1, {g}, {}, res[i], {}, {}, true); }
      if (other) { Ev z; z.o = "zeroRef"; z.y = {Cudd_CheckZeroRef(m)}; emit(z); Cudd_Quit(m); } });
  }
};
int main(int c, char** v) {
  string mode = v[1]; int seed = atoi(v[2]), hs = atoi(v[3]), ev = atoi(v[4]); FILE* f = fopen(v[5], "w");
  alarm(300);
#ifndef __SANITIZE_ADDRESS__
  struct rlimit rl = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &rl);
#endif
  string dir = string(v[5]) + ".d"; mkdir(dir.c_str(), 0755);
  for (int h = 0; h < hs; h++) {
    rng.seed(seed * 1000 + h); fprintf(f, "["); Wide w; w.out = f; w.dir = dir; w.start(mode);
    if (mode == "ops") w.opsOps(); else if (mode == "quant") w.opsQuant(); else if (mode == "order") { w.opsOps(); w.heavy = true; } else if (mode == "approx") w.opsApprox(); else if (mode == "count") w.opsCount(); else w.opsIo();
    for (int e = 0; e < ev; e++) { if (P(w.heavy ? 25 : 6)) w.noise(); else w.ops[R(w.ops.size())](); }
    w.finish(); fprintf(f, "]\n"); fflush(f);
  }
  unlink((dir + "/f").c_str()); rmdir(dir.c_str());
  fclose(f); return 0;
}
