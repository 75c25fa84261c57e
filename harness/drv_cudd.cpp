// Runs random histories of decision-diagram operations and logs them.  usage: drv_cudd <mode> <seed> <histories> <events> <out>
#include <sys/resource.h>
#include "cudd_zddops.hpp"

static void history(Bdd& b, const string& mode, int events) {
  int n = 3 + R(3), k = 6; bool heavy = false; int noise = 6, nv;
  if (mode == "bdd") { if (P(20)) n = 6; b.opsC01(); }
  else if (mode == "quant") { if (P(20)) n = 6; b.opsC02(); }
  else if (mode == "reorder") { n = 4 + R(3); if (P(15)) n = 7; b.basic(); heavy = true; noise = 40; if (P(30)) b.linear = true; }
  else if (mode == "approx") { n = 4 + R(3); if (P(30)) n = 7; b.opsC04(); }
  else if (mode == "query") { n = 3 + R(3); b.opsC05(); }
  else if (mode == "add") { n = 3 + R(2); if (P(15)) n = 5; ((Add&)b).ops6(); }
  nv = n; if (mode == "reorder" && !b.linear && P(50)) nv = 1 + R(n);
  bool maps = mode == "quant" && P(12); if (maps) { n = 3 + R(4); nv = 1 + R(n); noise = 30; heavy = true; } // the variable map over a growing set of variables
  b.start(n, k, nv); if (mode == "add") ((Add&)b).background();
  for (int i = 0; i < 3; i++) b.load();
  for (int i = 0; i < events; i++) {
    if (P(noise)) {
      if (b.linear && P(40)) { int m = P(50) ? CUDD_REORDER_LINEAR : CUDD_REORDER_LINEAR_CONVERGE; int rc = Cudd_ReduceHeap(b.dd, (Cudd_ReorderingType)m, 0); b.all("reorder", {m, rc}); continue; }
      b.noise(heavy);
      continue;
    }
    if (b.linear) { // the variables are not the tested functions any more: Boolean operations only
      static const char* ok[] = {"and", "or", "nand", "nor", "xor", "xnor", "ite", "not", "andLimit"};
      b.draw([&](int j) { for (auto o : ok) if (b.ops[j].first == o) return true; return false; }); continue; }
    if (maps) {
      static const char* ok[] = {"and", "or", "nand", "nor", "xor", "xnor", "not", "var", "setMap", "varMap", "varMap", "varMap"}; const char* o = ok[R(12)];
      if (P(8)) b.stale(); else b.draw([&](int j) { return b.ops[j].first == o; });
      continue; }
    if (P(heavy ? 20 : 8)) { b.stale(); continue; }
    b.draw([](int) { return true; });
  }
  b.all("gc"); if (mode == "add") ((Add&)b).done(); b.finish();
}
static void zhistory(Zdd& z, bool cover, int events) {
  z.startZ(cover ? 2 + R(2) + P(25) : 3 + R(3) + P(15), 6, cover); z.ops7();
  for (int i = 0; i < 3; i++) z.load();
  for (int i = 0; i < events; i++) { if (P(10)) z.znoise(); else if (P(8)) z.stale(); else z.draw([](int) { return true; }); }
  z.all("gc"); z.finishZ();
}
int main(int c, char** v) {
  string mode = v[1]; int seed = atoi(v[2]), hs = atoi(v[3]), ev = atoi(v[4]); FILE* f = fopen(v[5], "w");
  alarm(200);
#ifndef __SANITIZE_ADDRESS__
  struct rlimit rl = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &rl);
#endif
  for (int h = 0; h < hs; h++) { // one line per history
    rng.seed(seed * 1000 + h); fprintf(f, "[");
    if (mode == "zdd" || mode == "cover") { Zdd z; z.out = f; z.first = true; zhistory(z, mode == "cover", ev); fprintf(f, "]\n"); fflush(f); continue; }
    Bdd* b = mode == "add" ? new Add : new Bdd; b->out = f; b->first = true; history(*b, mode, ev); delete b; fprintf(f, "]\n"); fflush(f);
  }
  fclose(f); return 0;
}
