// Drives the integer data structures and the tries of the planner with random histories and logs every operation.
//   drv_ds MODE SEED HISTORIES EVENTS OUT      MODE: adt | trie | script FILE (in place of EVENTS)
// One line (a JSON list of events) per history.  Event: o operation, k kind, x/y/z objects, a arguments, r results,
// m members, i iteration, s size, e emptiness.
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <random>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include "intDataStructures/bIntSet.h"
#include "intDataStructures/bucketSet.h"
#include "intDataStructures/noDelIntSet.h"
#include "intDataStructures/delIterIntSet.h"
#include "intDataStructures/FlexIntStack.h"
#include "intDataStructures/IntStack.h"
#include "intDataStructures/IntUtil.h"
#include "intDataStructures/IntPairHeap.h"
#include "intDataStructures/HashTable.h"
#include "intDataStructures/CompressedSequenceSet.h"
#include "intDataStructures/SequenceSet.h"
#include "ProgressionNetwork.h"
#include "search/fringes/OneQueueWAStarFringe.h"
using namespace std;
using namespace progression;

static mt19937_64 rng;
static int rnd(int n) { return n <= 0 ? 0 : int(rng() % n); }
static bool chance(int p) { return rnd(100) < p; }
static FILE *out;
static bool first;
static string js(const vector<int> &v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + to_string(v[i]); return s + "]"; }

struct Ev {
    string o, k; int x = 0, y = 0, z = 0; vector<int> a, r, m, i; int s = 0, e = 0;
};
static void put(const Ev &v) {
    fprintf(out, "%s{\"o\":\"%s\",\"k\":\"%s\",\"x\":%d,\"y\":%d,\"z\":%d,\"a\":%s,\"r\":%s,\"m\":%s,\"i\":%s,\"s\":%d,\"e\":%d}", first ? "[" : ",", v.o.c_str(), v.k.c_str(),
            v.x, v.y, v.z, js(v.a).c_str(), js(v.r).c_str(), js(v.m).c_str(), js(v.i).c_str(), v.s, v.e);
    first = false; fflush(out);
}

// the parts of the different sets that are named alike
template <class S> static void observe(S &s, int n, Ev &v) {
    v.s = s.getSize(); v.e = s.isEmpty();
    for (int j = 0; j < n; j++) if (s.get(j)) v.m.push_back(j);
    int guard = 0;
    for (int j = s.getFirst(); j >= 0 && guard++ < 4 * n + 4; j = s.getNext()) v.i.push_back(j);
}
template <class S> static void observeStack(S &s, Ev &v) {
    v.s = s.getSize(); v.e = s.isEmpty();
    int guard = 0;
    for (int j = s.getFirst(); j >= 0 && guard++ < 1000; j = s.getNext()) v.i.push_back(j);
}

struct Obj {
    string k; int n = 0, cap = 0;
    IntPairHeap<int> *heap = nullptr; bIntSet *b = nullptr; bucketSet *u = nullptr; noDelIntSet *d = nullptr; delIterIntSet *l = nullptr;
    FlexIntStack *f = nullptr; IntStack *t = nullptr; OneQueueWAStarFringe *q = nullptr;
    bool sorted = true; int size = 0; set<int> in; int hs = 1; map<searchNode *, int> ids; int next = 1;
};
static void look(Obj &o, Ev &v) {
    if (o.b) observe(*o.b, o.n, v);
    if (o.u) observe(*o.u, o.n, v);
    if (o.d) observe(*o.d, o.n, v);
    if (o.l) observe(*o.l, o.n, v);
    if (o.f) observeStack(*o.f, v);
    if (o.t) observeStack(*o.t, v);
    if (o.heap) { v.s = o.heap->size(); v.e = o.heap->isEmpty(); if (!o.heap->isEmpty()) { v.i.push_back(o.heap->topKey()); v.i.push_back(o.heap->topVal()); } }
    if (o.q) { v.s = o.q->size(); v.e = o.q->isEmpty(); }
}

static int key() { int c = rnd(10); return c < 6 ? rnd(6) : c < 8 ? rnd(60) - 20 : c == 8 ? rnd(INT_MAX) : rnd(3); }

static void adt(int events) {
    vector<Obj> O(1);
    static const char *kinds[] = {"heap", "heap", "bint", "bucket", "nodel", "nodel", "deliter", "flex", "stack", "fringe", "heap"};
    IntUtil iu;
    int focus = rnd(11);
    for (int n = 0; n < events; n++) {
        Ev v;
        if (O.size() < 2 || (O.size() < 4 && chance(6))) {
            Obj o; o.k = kinds[chance(70) ? focus : rnd(11)]; v.o = "new"; v.k = o.k; v.x = int(O.size());
            o.n = chance(30) ? 1 + rnd(4) : 1 + rnd(24);
            if (o.k == "heap") o.heap = new IntPairHeap<int>(o.n = 1 + rnd(6));
            if (o.k == "bint") (o.b = new bIntSet)->init(o.n);
            if (o.k == "bucket") (o.u = new bucketSet)->init(o.n);
            if (o.k == "nodel") (o.d = new noDelIntSet)->init(o.n);
            if (o.k == "deliter") (o.l = new delIterIntSet)->init(o.n);
            if (o.k == "flex") (o.f = new FlexIntStack)->init(o.n = 1 + rnd(4));
            if (o.k == "stack") (o.t = new IntStack)->init(o.n);
            if (o.k == "fringe") { int w = chance(40) ? 1 : 1 + rnd(4); o.hs = 1 + rnd(3); int opt = rnd(4); o.q = new OneQueueWAStarFringe(aStar(opt), w, o.hs); v.a = {opt, w, o.hs}; }
            look(o, v); O.push_back(o); put(v); continue;
        }
        if (chance(4)) { // functions on arrays
            vector<int> a; for (int q = rnd(chance(10) ? 40 : 12); q > 0; q--) a.push_back(rnd(chance(50) ? 8 : 1000));
            int c = rnd(6), w = a.size() && chance(70) ? a[rnd(int(a.size()))] : rnd(10);
            v.x = 0; v.a = a;
            if (c == 0) { v.o = "sort"; iu.sort(a.data(), 0, int(a.size()) - 1); v.r = a; }
            if (c == 1) { v.o = "makeSet"; int k = iu.makeSet(a.data(), int(a.size())); v.r = a; v.s = k; }
            if (c == 2 || c == 3) {
                sort(a.begin(), a.end()); v.a = a; v.y = w; v.o = c == 2 ? "indexOf" : "contains";
                v.s = c == 2 ? iu.indexOf(a.data(), 0, int(a.size()) - 1, w) : iu.containsInt(a.data(), 0, int(a.size()) - 1, w);
            }
            if (c == 4) {
                set<int> q(a.begin(), a.end()); a.assign(q.begin(), q.end()); shuffle(a.begin(), a.end(), rng);
                if (a.empty()) a.push_back(3);
                w = a[rnd(int(a.size()))]; v.a = a; v.y = w; v.o = "copyExcluding"; int *r = iu.copyExcluding(a.data(), int(a.size()), w); v.r.assign(r, r + a.size() - 1); delete[] r;
            }
            if (c == 5) { if (chance(50)) sort(a.begin(), a.end()); if (a.size() && chance(30)) swap(a[rnd(int(a.size()))], a[rnd(int(a.size()))]); v.a = a; v.o = "isSorted"; v.s = iu.isSorted(a.data(), int(a.size())); }
            put(v); continue;
        }
        int x = 1 + rnd(int(O.size()) - 1); Obj *o = &O[x]; v.x = x; v.k = o->k; int e = rnd(o->n);
        if (o->heap) {
            if (chance(3)) { v.o = "clear"; o->heap->clear(); }
            else if (o->heap->isEmpty() || chance(58)) { v.o = "add"; int k = key(); v.a = {k, rnd(chance(50) ? 4 : 1000)}; o->heap->add(v.a[0], v.a[1]); }
            else { v.o = "pop"; v.r = {o->heap->topKey(), o->heap->topVal()}; o->heap->pop(); }
        } else if (o->q) {
            if (o->ids.empty() || chance(58)) {
                searchNode *s = new searchNode; s->heuristicValue = new int[o->hs]; v.o = "push"; v.y = o->next++;
                for (int h = 0; h < o->hs; h++) v.a.push_back(s->heuristicValue[h] = rnd(5));
                v.a.push_back(s->modificationDepth = rnd(6)); v.a.push_back(s->actionCosts = rnd(6)); v.a.push_back(s->mixedModificationDepth = rnd(8));
                s->numAbstract = s->numPrimitive = 0; s->unconstraintAbstract = s->unconstraintPrimitive = nullptr; s->solution = nullptr;
                o->ids[s] = v.y; o->q->push(s); v.r.push_back(s->fValue);
            } else { v.o = "pop"; searchNode *s = o->q->pop(); v.r = {o->ids.count(s) ? o->ids[s] : -1}; o->ids.erase(s); }
        } else if (o->f || o->t) {
            int c = rnd(100);
            if (c < 3) { v.o = "clear"; if (o->f) o->f->clear(); else o->t->clear(); o->size = 0; }
            else if (c < 62 && (o->f || o->size < o->n)) { v.o = "push"; v.a = {rnd(9)}; if (o->f) o->f->push(v.a[0]); else o->t->push(v.a[0]); o->size++; }
            else { v.o = "pop"; v.r = {o->f ? o->f->pop() : o->t->pop()}; if (o->size) o->size--; }
        } else if (o->b) {
            int c = rnd(100);
            if (c < 3) { v.o = "clear"; o->b->clear(); o->sorted = true; }
            else if (c < 45) { v.o = "insert"; v.a = {e}; if (!o->in.count(e)) o->sorted = true; o->b->insert(e); o->in.insert(e); }
            else if (c < 60) { v.o = "append"; v.a = {e}; if (!o->in.count(e)) o->sorted = false; o->b->append(e); o->in.insert(e); }
            else if (c < 72 || !o->sorted) { v.o = "sort"; o->b->sortSet(); o->sorted = true; }
            else { v.o = "erase"; v.a = {e}; o->b->erase(e); o->in.erase(e); }
            if (v.o == "clear") o->in.clear();
        } else if (o->u) {
            int c = rnd(100);
            if (c < 3) { v.o = "clear"; o->u->clear(); }
            else if (c < 55) { v.o = "insert"; v.a = {e}; o->u->insert(e); }
            else if (c < 75) { v.o = "erase"; v.a = {e}; o->u->erase(e); }
            else if (c < 87) { v.o = "take"; int q = 1 + rnd(chance(60) ? 3 : o->n + 2); v.y = q; for (int j = 0; j < q; j++) v.r.push_back(j ? o->u->removeNext() : o->u->removeFirst()); }
            else { // erase the current element of an iteration
                v.o = "drop"; set<int> del; for (int q = rnd(o->n + 1); q > 0; q--) del.insert(rnd(o->n));
                v.a.assign(del.begin(), del.end()); int guard = 0;
                for (int j = o->u->getFirst(); j >= 0 && guard++ < 4 * o->n; j = o->u->getNext()) { v.r.push_back(j); if (del.count(j)) o->u->erase(j); }
            }
        } else if (o->l) {
            int c = rnd(100);
            if (c < 4) { v.o = "clear"; o->l->clear(); }
            else if (c < 75) { v.o = "insert"; v.a = {e}; o->l->insert(e); }
            else {
                v.o = "drop"; set<int> del; for (int q = rnd(o->n + 1); q > 0; q--) del.insert(rnd(o->n));
                v.a.assign(del.begin(), del.end()); int guard = 0;
                for (int j = o->l->getFirst(); j >= 0 && guard++ < 4 * o->n;) { v.r.push_back(j); j = del.count(j) ? o->l->delCurrentGetNext() : o->l->getNext(); }
            }
        } else { // noDelIntSet
            int c = rnd(100);
            if (c < 5) { v.o = "clear"; o->d->clear(); }
            else if (c < 60) { v.o = "insert"; v.a = {e}; o->d->insert(e); }
            else if (c < 68) { v.o = "sort"; o->d->sort(); }
            else {
                vector<int> ds; for (size_t j = 1; j < O.size(); j++) if (O[j].d) ds.push_back(int(j));
                int y = ds[rnd(int(ds.size()))], w = rnd(4); v.y = y; Obj r; r.k = "nodel";
                static const char *nm[] = {"clone", "union", "inter", "minus"}; v.o = nm[w];
                vector<int> into; for (int z : ds) if (z != x && z != y && O[z].n >= o->n && O[z].n >= O[y].n) into.push_back(z);
                if (w && into.size() && chance(50)) { // into an existing set
                    v.z = into[rnd(int(into.size()))]; noDelIntSet *t = O[v.z].d;
                    if (w == 1) o->d->setUnion(t, O[y].d); if (w == 2) o->d->setIntersection(t, O[y].d); if (w == 3) o->d->setMinus(t, O[y].d);
                    look(O[v.z], v); put(v); continue;
                }
                if (O.size() >= 7) { v.o = "insert"; v.y = 0; v.a = {e}; o->d->insert(e); }
                else {
                    r.n = w ? max(o->n, O[y].n) : o->n;
                    r.d = w == 0 ? o->d->clone() : w == 1 ? o->d->setUnion(O[y].d) : w == 2 ? o->d->setIntersection(O[y].d) : o->d->setMinus(O[y].d);
                    v.z = int(O.size()); look(r, v); O.push_back(r); put(v); continue;
                }
            }
        }
        look(*o, v); put(v);
    }
}

// ---- tries -------------------------------------------------------------------------------------------------------
typedef vector<bool> Bits;
static pair<vector<uint64_t>, int> pack(const Bits &b) {
    vector<uint64_t> v((b.size() + 63) / 64);
    for (size_t i = 0; i < b.size(); i++) if (b[i]) v[i / 64] |= uint64_t(1) << (i % 64);
    return {v, int((64 - b.size() % 64) % 64)};
}
struct Tries { // one trie per slot of a hash table
    hash_table *t = nullptr; bool seq = false; sequence_trie *s = nullptr; int n = 1;
    vector<void *> store = vector<void *>(5000);
    map<pair<int,int>, int> ref; bool odd = false; // screening of the histories of mode 'many'
};
static void access(Tries &T, uint64_t slot, const Bits &key, int id, int pay, int r, bool rm) {
    auto [v, pad] = pack(key); Ev e; e.o = "at"; e.k = T.seq ? "seqtrie" : "trie"; e.x = 1; e.y = r; e.a = {id};
    if (T.seq) {
        payloadType *p = nullptr;
        if (!T.s) T.s = new sequence_trie(v, pad, p); else T.s->insert(v, pad, p);
        e.r = {*p, pay}; *p = payloadType(pay);
    } else {
        compressed_sequence_trie **c = (compressed_sequence_trie **) T.t->get(slot); void **p = nullptr;
        if (!*c) *c = new compressed_sequence_trie(v, pad, p); else (*c)->insert(v, pad, p);
        e.r = {*p ? int((char *) *p - (char *) T.store.data()) : 0, pay}; *p = pay ? (char *) T.store.data() + pay : nullptr;
    }
    if (T.ref[{r, id}] != e.r[0]) T.odd = true;
    T.ref[{r, id}] = pay;
    put(e);
}
static void keysEvent(const vector<Bits> &keys, int n) {
    fprintf(out, "[{\"o\":\"keys\",\"k\":\"trie\",\"x\":1,\"y\":%d,\"z\":0,\"a\":[],\"r\":[],\"m\":[],\"i\":[],\"s\":0,\"e\":0}", n);
    first = false;
    set<Bits> d(keys.begin(), keys.end());
    if (d.size() != keys.size()) { fprintf(stderr, "keys are not distinct\n"); exit(3); }
}
static bool trie(int events, int many = 0) {
    Tries T; T.seq = chance(many ? 80 : 25); T.n = T.seq ? 1 : chance(50) ? 1 : 1 + rnd(7); if (!T.seq) T.t = new hash_table(T.n);
    // keys that share long prefixes, are prefixes of each other, and end at the ends of words
    vector<Bits> keys; set<Bits> known; int nk = 2 + rnd(many ? many : 24);
    for (int guard = 0; int(keys.size()) < nk && guard < 1000 + many; guard++) {
        Bits b;
        if (keys.size() && chance(85)) b = keys[rnd(int(keys.size()))];
        int c = rnd(10);
        if (b.empty() || c == 0) { b.clear(); int n = chance(50) ? 1 + rnd(70) : 64 * (1 + rnd(4)) + (chance(60) ? 0 : rnd(3) - 1); bool z = chance(30), one = chance(20); for (int i = 0; i < n; i++) b.push_back(z ? one : chance(50)); }
        else if (c < 4) { size_t n = chance(50) ? 64 * (1 + rnd(int(b.size() / 64) + 1)) : 1 + rnd(int(b.size())); if (n < b.size()) b.resize(n); }
        else if (c < 7) { size_t i = chance(40) ? size_t(64 * rnd(int(b.size() / 64) + 1) + rnd(3)) : size_t(rnd(int(b.size()))); if (chance(30)) i = b.size() - 1; if (i < b.size()) b[i] = !b[i]; }
        else { int n = chance(30) ? 64 : chance(30) ? int(64 - b.size() % 64) : 1 + rnd(80); bool z = chance(50); for (int i = 0; i < n; i++) b.push_back(z ? false : chance(50)); }
        if (b.size() && b.size() < 700 && known.insert(b).second) keys.push_back(b);
    }
    keysEvent(keys, T.n);
    int shown = 2 + rnd(int(keys.size()));
    for (int n = 0; n < events; n++) {
        int id = rnd(min(shown, int(keys.size()))); if (chance(30)) shown++;
        int r = rnd(T.n); uint64_t slot = uint64_t(r) + uint64_t(T.n) * (chance(50) ? rng() % ((~uint64_t(0)) / T.n) : rnd(5));
        access(T, slot, keys[id], id + 1, chance(15) ? 0 : 1 + rnd(4999), r, false);
    }
    return T.odd;
}
// keys and accesses given by the file:  T n k1 k2 ... (bit strings)  then  A key payload ...
static void script(ifstream &f) {
    int nk, na, seq; 
    while (f >> seq >> nk >> na) {
        vector<Bits> keys;
        for (int i = 0; i < nk; i++) { string s; f >> s; Bits b; for (char c : s) b.push_back(c == '1'); keys.push_back(b); }
        Tries T; T.seq = seq; if (!seq) T.t = new hash_table(1);
        keysEvent(keys, 1);
        for (int i = 0; i < na; i++) { int k, p; f >> k >> p; access(T, 0, keys[k - 1], k, p, 0, false); }
        fprintf(out, "]\n");
        if (T.t) { delete (compressed_sequence_trie *) *T.t->get(0); free(T.t->table); delete T.t; }
    }
}

int main(int c, char **v) {
    string mode = v[1]; out = fopen(v[5], "w"); cout.setstate(ios::failbit);
    if (mode == "script") { ifstream f(v[4]); script(f); fclose(out); return 0; }
    alarm(300);
    if (mode == "many") { // many tries in one process: only a sample of the histories, and those that look odd, are kept
        FILE *file = out; int kept = 0;
        for (int h = 0; h < atoi(v[3]); h++) {
            rng.seed(strtoull(v[2], 0, 10) * 1000003 + h); first = true;
            char *buf = nullptr; size_t len = 0; out = open_memstream(&buf, &len);
            bool odd = trie(atoi(v[4]), 200);
            fprintf(out, "]\n"); fclose(out);
            if ((odd && kept++ < 4) || h % 300 == 0) { fwrite(buf, 1, len, file); fflush(file); }
            free(buf);
        }
        fclose(file); return 0;
    }
    for (int h = 0; h < atoi(v[3]); h++) {
        rng.seed(strtoull(v[2], 0, 10) * 1000003 + h); srand(unsigned(rnd(1 << 30))); first = true;
        if (mode == "adt") adt(atoi(v[4])); else trie(atoi(v[4]));
        fprintf(out, "]\n"); fflush(out);
    }
    fclose(out);
}
