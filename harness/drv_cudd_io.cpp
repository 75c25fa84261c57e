// Stores diagrams with the DDDMP library, reads them back into this or another manager, and logs what came back.
//   drv_cudd_io MODE SEED HISTORIES EVENTS OUT     MODE: io | cnf | const; one line (list of events) per history; files in OUT.d
#include <sys/resource.h>
#include <sys/stat.h>
#include "cudd_mach.hpp"

struct Io {
  FILE* out; bool first = true; string dir; string last;
  static void pv(FILE* f, const V& v) { Mach::pv(f, v); }
  void pvv(const vector<V>& v) { fputc('[', out); for (size_t i = 0; i < v.size(); i++) { if (i) fputc(',', out); pv(out, v[i]); } fputc(']', out); }
};

static V table(Mach& m, DdManager* dd, int n, DdNode* f, bool add) { m.dd = dd; m.n = n; m.M = 1 << n; if (!add) return m.bdd(f, dd);
  V t(m.M); for (int k = 0; k < m.M; k++) { DdNode* g = f; while (!cuddIsConstant(g)) g = (k >> g->index) & 1 ? cuddT(g) : cuddE(g); double v = cuddV(g); t[k] = std::fabs(v) < 1e9 && v == (int)v ? (int)v : -2000000000; }
  return t; }
static DdNode* build(DdManager* dd, int n, const V& t, bool add) { // from the table, referenced
  vector<DdNode*> lv;
  for (int v : t) { DdNode* c = add ? Cudd_addConst(dd, v) : v ? Cudd_ReadOne(dd) : Cudd_ReadLogicZero(dd); Cudd_Ref(c); lv.push_back(c); }
  for (int i = 0; i < n; i++) {
    vector<DdNode*> nx;
    for (size_t k = 0; k < lv.size(); k += 2) {
      DdNode* x = add ? Cudd_addIthVar(dd, i) : Cudd_bddIthVar(dd, i); Cudd_Ref(x);
      DdNode* r = add ? Cudd_addIte(dd, x, lv[k + 1], lv[k]) : Cudd_bddIte(dd, x, lv[k + 1], lv[k]); Cudd_Ref(r);
      Cudd_RecursiveDeref(dd, x); Cudd_RecursiveDeref(dd, lv[k]); Cudd_RecursiveDeref(dd, lv[k + 1]); nx.push_back(r);
    }
    lv = nx;
  }
  return lv[0];
}
static V someTable(int n, bool add, int big) {
  V t(1 << n); int c = R(10); V vals; int nv = 2 + R(5);
  for (int i = 0; i < nv; i++) vals.push_back(!add ? i & 1 : big ? R(200000000) - 100000000 : R(40) - 15);
  if (add && P(40)) { vals[0] = 0; vals[1 % nv] = 1; }
  if (c == 0) { std::fill(t.begin(), t.end(), vals[R(nv)]); return t; }
  V use; for (int i = 0; i < n; i++) if (c < 3 || P(70)) use.push_back(i);
  std::map<int, int> val; for (auto& x : t) x = 0;
  for (int k = 0; k < (1 << n); k++) { int p = 0; for (int i : use) p = p * 2 + ((k >> i) & 1); if (!val.count(p)) val[p] = c > 7 && P(70) ? vals[0] : vals[R(nv)]; t[k] = val[p]; }
  return t;
}
static DdManager* manager(int n, V& perm) { // a random order; perm: level of each variable
  DdManager* dd = Cudd_Init(n, 0, CUDD_UNIQUE_SLOTS, 1024, 0); for (int i = 0; i < n; i++) Cudd_bddIthVar(dd, i);
  V inv(n); for (int i = 0; i < n; i++) inv[i] = i;
  if (P(75)) { std::shuffle(inv.begin(), inv.end(), rng); Cudd_ShuffleHeap(dd, inv.data()); }
  perm.assign(n, 0); for (int i = 0; i < n; i++) perm[i] = Cudd_ReadPerm(dd, i);
  return dd;
}

static void io(Io& w) {
  bool add = P(40), many = P(4); Mach m; int nA = many ? 8 + R(2) : 1 + R(6), k = many ? 3 + R(3) : 1 + R(4), big = P(15); V permA, permB; // many: node numbers of several bytes
  DdManager* A = manager(nA, permA); bool same = P(25); int nB = same || many ? nA : nA + R(4); DdManager* B = same ? A : manager(nB, permB);
  if (same) permB = permA;
  vector<V> f, g; vector<DdNode*> F; for (int i = 0; i < k; i++) { f.push_back(i && P(15) ? f[R(i)] : someTable(nA, add, big)); if (!add && i && P(15)) for (auto& x : f[i] = f[i - 1]) x = 1 - x; F.push_back(build(A, nA, f[i], add)); }
  bool arr = k > 1 || P(30); if (!arr) k = 1;
  // attributes of the variables
  V auxA(nA), auxB(nB), nameA(nA), nameB(nB), comp(nA); V q(nB); for (int i = 0; i < nB; i++) q[i] = i;
  std::shuffle(q.begin(), q.end(), rng); int base = P(50) ? 0 : R(50);
  for (int i = 0; i < nB; i++) auxB[i] = base + q[i]; if (P(25)) for (int i = 0; i < nB; i++) auxB[i] = base + i;
  std::shuffle(q.begin(), q.end(), rng); for (int i = 0; i < nB; i++) nameB[i] = 100 + q[i];
  std::shuffle(q.begin(), q.end(), rng); for (int i = 0; i < nA; i++) auxA[i] = auxB[q[i]];
  std::shuffle(q.begin(), q.end(), rng); for (int i = 0; i < nA; i++) nameA[i] = nameB[q[i]];
  std::shuffle(q.begin(), q.end(), rng); for (int i = 0; i < nA; i++) comp[i] = q[i];
  auto names = [](const V& v) { vector<char*> s; for (int x : v) s.push_back(strdup(("v" + std::to_string(x)).c_str())); return s; };
  vector<char*> nmA = names(nameA), nmB = names(nameB); bool giveNames = P(70), giveAux = P(70);
  V rn(k), rm(k); for (int i = 0; i < k; i++) rn[i] = rm[i] = 200 + i; std::shuffle(rm.begin(), rm.end(), rng);
  vector<char*> rnames = names(rn), rmatch = names(rm); bool giveRoots = arr && P(60), byRoot = giveRoots && P(60);
  int fmt = P(50) ? DDDMP_MODE_TEXT : add ? DDDMP_MODE_TEXT : P(70) ? DDDMP_MODE_BINARY : DDDMP_MODE_DEFAULT;
  int vi = R(5); if (vi == DDDMP_VARNAMES && !giveNames) vi = DDDMP_VARIDS; if (vi == DDDMP_VARAUXIDS && !giveAux) vi = DDDMP_VARDEFAULT;
  if (fmt != DDDMP_MODE_TEXT) vi = P(50) ? DDDMP_VARDEFAULT : vi;
  int mm = R(5); if (mm == DDDMP_VAR_MATCHAUXIDS && !giveAux) mm = 0; if (mm == DDDMP_VAR_MATCHNAMES && !giveNames) mm = 1;
  string fn = w.dir + "/f", f2 = w.dir + "/g";
  char dn[] = "dd"; char* ddn = P(50) ? dn : nullptr; int rc;
  bool viaFp = P(30); FILE* fp = viaFp ? fopen(fn.c_str(), "w") : nullptr; char* fnc = (char*)fn.c_str();
  if (arr) rc = add ? Dddmp_cuddAddArrayStore(A, ddn, k, F.data(), giveRoots ? rnames.data() : nullptr, giveNames ? nmA.data() : nullptr, giveAux ? auxA.data() : nullptr, fmt, (Dddmp_VarInfoType)vi, fnc, fp)
                    : Dddmp_cuddBddArrayStore(A, ddn, k, F.data(), giveRoots ? rnames.data() : nullptr, giveNames ? nmA.data() : nullptr, giveAux ? auxA.data() : nullptr, fmt, (Dddmp_VarInfoType)vi, fnc, fp);
  else rc = add ? Dddmp_cuddAddStore(A, ddn, F[0], giveNames ? nmA.data() : nullptr, giveAux ? auxA.data() : nullptr, fmt, (Dddmp_VarInfoType)vi, fnc, fp)
                : Dddmp_cuddBddStore(A, ddn, F[0], giveNames ? nmA.data() : nullptr, giveAux ? auxA.data() : nullptr, fmt, (Dddmp_VarInfoType)vi, fnc, fp);
  if (fp) fclose(fp);
  int sane = Cudd_DebugCheck(A) == 0; V again; // the stored diagrams are unharmed
  for (int i = 0; i < k; i++) { if (table(m, A, nA, F[i], add) != f[i]) sane = 0; DdNode* z = build(A, nA, f[i], add); if (z != F[i]) sane = 0; Cudd_RecursiveDeref(A, z); }
  // header
  Dddmp_DecompType ty = DDDMP_NONE; int nv = -1, ns = -1, nr = -1; char **sn = 0, **on = 0; int *ids = 0, *cids = 0, *aids = 0;
  V hids, haux; int hrc = Dddmp_cuddHeaderLoad(&ty, &nv, &ns, &sn, &on, &ids, &cids, &aids, &nr, fnc, nullptr);
  for (int i = 0; i < ns && ids; i++) hids.push_back(ids[i]);
  V hnames; for (int i = 0; i < ns && sn; i++) hnames.push_back(atoi(sn[i] + 1));
  string src = fn; int conv = 0;
  if (!add && !byRoot && mm != DDDMP_VAR_MATCHPERMIDS && mm != DDDMP_VAR_MATCHNAMES && mm != DDDMP_VAR_MATCHAUXIDS && P(50)) { conv = fmt == DDDMP_MODE_TEXT ? 1 : 2; int r = conv == 1 ? Dddmp_Text2Bin(fnc, (char*)f2.c_str()) : Dddmp_Bin2Text(fnc, (char*)f2.c_str()); if (r != DDDMP_SUCCESS) rc = 0; src = f2; }
  DdNode** roots = nullptr; vector<DdNode*> G; int nl = 0; int lm = P(70) ? DDDMP_MODE_DEFAULT : conv == 1 ? DDDMP_MODE_BINARY : conv == 2 ? DDDMP_MODE_TEXT : fmt;
  FILE* lf = P(30) ? fopen(src.c_str(), "r") : nullptr;
  if (arr) {
    nl = add ? Dddmp_cuddAddArrayLoad(B, byRoot ? DDDMP_ROOT_MATCHNAMES : DDDMP_ROOT_MATCHLIST, rmatch.data(), (Dddmp_VarMatchType)mm, nmB.data(), auxB.data(), comp.data(), lm, (char*)src.c_str(), lf, &roots)
             : Dddmp_cuddBddArrayLoad(B, byRoot ? DDDMP_ROOT_MATCHNAMES : DDDMP_ROOT_MATCHLIST, rmatch.data(), (Dddmp_VarMatchType)mm, nmB.data(), auxB.data(), comp.data(), lm, (char*)src.c_str(), lf, &roots);
    for (int i = 0; i < nl; i++) G.push_back(roots[i]);
  } else { DdNode* r = add ? Dddmp_cuddAddLoad(B, (Dddmp_VarMatchType)mm, nmB.data(), auxB.data(), comp.data(), lm, (char*)src.c_str(), lf) : Dddmp_cuddBddLoad(B, (Dddmp_VarMatchType)mm, nmB.data(), auxB.data(), comp.data(), lm, (char*)src.c_str(), lf); if (r) G.push_back(r); nl = G.size(); }
  if (lf) fclose(lf);
  int nB2 = Cudd_ReadSize(B); int canon = 1;
  for (auto r : G) { V t = table(m, B, nB2, r, add); g.push_back(t); DdNode* z = build(B, nB2, t, add); if (z != r) canon = 0; Cudd_RecursiveDeref(B, z); Cudd_RecursiveDeref(B, r); }
  int sb = Cudd_DebugCheck(B) == 0; V bPerm; for (int i = 0; i < nB2; i++) bPerm.push_back(Cudd_ReadPerm(B, i));
  for (auto r : F) Cudd_RecursiveDeref(A, r);
  int leakA = same ? 0 : Cudd_CheckZeroRef(B);
  static const char* mn[] = {"ids", "permids", "auxids", "names", "compose"};
  fprintf(w.out, "%s{\"o\":\"%s\",\"m\":\"%s\",\"fmt\":\"%c\",\"vi\":%d,\"rc\":%d,\"nA\":%d,\"nB\":%d,\"f\":", w.first ? "" : ",", add ? "add" : "bdd", mn[mm], fmt, vi, rc == DDDMP_SUCCESS, nA, nB2); w.pvv(f.size() > (size_t)k ? vector<V>(f.begin(), f.begin() + k) : f);
  fprintf(w.out, ",\"g\":"); w.pvv(g);
  auto fld = [&](const char* nme, const V& v) { fprintf(w.out, ",\"%s\":", nme); Mach::pv(w.out, v); };
  fld("permA", permA); fld("permB", bPerm); fld("auxA", auxA); fld("auxB", auxB); fld("nameA", nameA); fld("nameB", nameB); fld("comp", comp); fld("roots", rn); fld("want", byRoot ? rm : rn);
  fld("hids", hids); fld("hnames", giveNames ? hnames : V()); fprintf(w.out, ",\"named\":%d,\"hdr\":%d,\"hvars\":%d,\"hsupp\":%d,\"hroots\":%d,\"hty\":%d", giveNames, hrc == DDDMP_SUCCESS, nv, ns, nr, (int)ty);
  fprintf(w.out, ",\"sane\":%d,\"canon\":%d,\"saneB\":%d,\"leak\":%d,\"conv\":%d,\"same\":%d}", sane, canon, sb, leakA, conv, same); w.first = false; fflush(w.out);
  for (auto p : {nmA, nmB, rnames, rmatch}) for (char* s : p) free(s);
  if (roots) FREE(roots);
  if (!same) Cudd_Quit(B); Cudd_Quit(A);
}

static void cnf(Io& w, bool constant) {
  Mach m; V perm; int n = 1 + R(5), k = P(75) ? 1 : 2 + R(2); DdManager* A = manager(n, perm); vector<V> f; vector<DdNode*> F;
  for (int i = 0; i < k; i++) { V t; do t = someTable(n, false, 0); while (!constant && std::count(t.begin(), t.end(), t[0]) == (int)t.size()); if (constant && !i) std::fill(t.begin(), t.end(), R(2)); f.push_back(t); F.push_back(build(A, n, f[i], false)); }
  V cid(n); for (int i = 0; i < n; i++) cid[i] = i + 1; bool own = P(60); int off = R(8);
  if (own) { std::shuffle(cid.begin(), cid.end(), rng); for (auto& x : cid) x += off; }
  int mode = R(3), initial = own ? n + off + 1 + R(4) : P(50) ? -1 : n + 1 + R(5), th = R(4) - 1, pl = R(5) - 1; string fn = w.dir + "/c"; int nc = -1, nn = -1;
  V bid(n), aux(n); for (int i = 0; i < n; i++) { bid[i] = i; aux[i] = 50 + i; }
  int rc = k == 1 && P(50) ? Dddmp_cuddBddStoreCnf(A, F[0], (Dddmp_DecompCnfStoreType)mode, 0, nullptr, P(50) ? bid.data() : nullptr, P(50) ? aux.data() : nullptr, own ? cid.data() : nullptr, initial, th, pl, (char*)fn.c_str(), nullptr, &nc, &nn)
                  : Dddmp_cuddBddArrayStoreCnf(A, F.data(), k, (Dddmp_DecompCnfStoreType)mode, 0, nullptr, P(50) ? bid.data() : nullptr, P(50) ? aux.data() : nullptr, own ? cid.data() : nullptr, initial, th, pl, (char*)fn.c_str(), nullptr, &nc, &nn);
  int sane = Cudd_DebugCheck(A) == 0;
  for (int i = 0; i < k; i++) { DdNode* z = build(A, n, f[i], false); if (z != F[i]) sane = 0; Cudd_RecursiveDeref(A, z); }
  // what the file says
  vector<V> cl; V ids, cnfids, start; int pv = -1, pc = -1; FILE* fp = fopen(fn.c_str(), "r"); char buf[100000];
  while (fgets(buf, sizeof buf, fp)) {
    if (buf[0] == 'p') { sscanf(buf, "p cnf %d %d", &pv, &pc); continue; }
    auto list = [&](const char* key, V& v) { if (!strncmp(buf, key, strlen(key))) { char* s = buf + strlen(key); int x, l; while (sscanf(s, "%d%n", &x, &l) == 1) { v.push_back(x); s += l; } } };
    if (buf[0] == 'c') { list("c .ids", ids); list("c .cnfids", cnfids); list("c .rootids", start); continue; }
    V c; char* s = buf; int x, l; while (sscanf(s, "%d%n", &x, &l) == 1) { if (x) c.push_back(x); s += l; } cl.push_back(c);
  }
  fclose(fp);
  // read back by the library, with the added variables quantified
  vector<V> g; DdNode** roots = nullptr; int nr = -1, canon = 1, sb = 1, lrc = -1;
  if (rc == DDDMP_SUCCESS && !constant) {
    V pb; int nB = std::max(pv, n) + 1; DdManager* B = Cudd_Init(nB, 0, CUDD_UNIQUE_SLOTS, 1024, 0);
    lrc = k == 1 && P(50) ? Dddmp_cuddBddLoadCnf(B, DDDMP_VAR_MATCHIDS, nullptr, nullptr, nullptr, DDDMP_CNF_MODE_CONJ_QUANT, (char*)fn.c_str(), nullptr, &roots, &nr) : Dddmp_cuddBddArrayLoadCnf(B, DDDMP_ROOT_MATCHLIST, nullptr, DDDMP_VAR_MATCHIDS, nullptr, nullptr, nullptr, DDDMP_CNF_MODE_CONJ_QUANT, (char*)fn.c_str(), nullptr, &roots, &nr);
    for (int i = 0; i < nr && lrc == DDDMP_SUCCESS; i++) {
      int top = 0; DdNode* s = Cudd_Support(B, roots[i]); Cudd_Ref(s); for (DdNode* t = s; !cuddIsConstant(t); t = cuddT(t)) top = std::max(top, (int)t->index + 1); Cudd_RecursiveDeref(B, s);
      if (top > n) { g.push_back(V(1 << n, -1)); continue; }
      g.push_back(table(m, B, n, roots[i], false));
    }
    sb = Cudd_DebugCheck(B) == 0; Cudd_Quit(B);
  }
  fprintf(w.out, "%s{\"o\":\"%s\",\"m\":\"%d\",\"rc\":%d,\"lrc\":%d,\"n\":%d,\"f\":", w.first ? "" : ",", constant ? "cnfconst" : "cnf", mode, rc == DDDMP_SUCCESS, lrc, n); w.pvv(f); fprintf(w.out, ",\"g\":"); w.pvv(g); fprintf(w.out, ",\"cl\":"); w.pvv(cl);
  auto fld = [&](const char* nme, const V& v) { fprintf(w.out, ",\"%s\":", nme); Mach::pv(w.out, v); };
  fld("cid", cid); fld("ids", ids); fld("cnfids", cnfids); fld("start", start);
  fprintf(w.out, ",\"pv\":%d,\"pc\":%d,\"nc\":%d,\"nn\":%d,\"first\":%d,\"sane\":%d,\"saneB\":%d}", pv, pc, nc, nn, initial > 0 ? initial : n + 1, sane, sb); w.first = false; fflush(w.out);
  for (auto r : F) Cudd_RecursiveDeref(A, r);
  Cudd_Quit(A);
}

int main(int c, char** v) {
  string mode = v[1]; int seed = atoi(v[2]), hs = atoi(v[3]), ev = atoi(v[4]); Io w; w.out = fopen(v[5], "w"); w.dir = string(v[5]) + ".d"; mkdir(w.dir.c_str(), 0700);
  alarm(200);
  for (int h = 0; h < hs; h++) {
    rng.seed(seed * 1000 + h); w.first = true; fprintf(w.out, "["); fflush(w.out);
    for (int i = 0; i < ev; i++) if (mode == "io") io(w); else cnf(w, mode == "const");
    fprintf(w.out, "]\n"); fflush(w.out);
  }
  fclose(w.out); return 0;
}
