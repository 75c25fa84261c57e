---------------------------- MODULE DddmpTrace -----------------------------
(***************************************************************************)
(* Diagrams on file.  A file is a list of named functions over variables   *)
(* that have an index, a position in the order, an auxiliary number and a  *)
(* name.  Reading matches the variables of the file with those of the      *)
(* receiving manager by one of these (Target) and yields the same          *)
(* functions, of the matched variables (SameFunction).  A function on file *)
(* as CNF is the set of assignments that some values of the added          *)
(* variables complete to a model (CnfMeans).                               *)
(* Tables: entry a+1 is the value under assignment a (bit i: variable i).  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hs == JsonDeserialize(IOEnv.TRACE)
Rng(s) == { s[k] : k \in DOMAIN s }
Pow2(k) == 2 ^ k
Bit(a, i) == (a \div Pow2(i)) % 2
Abs(x) == IF x < 0 THEN -x ELSE x
Pos(s, v) == CHOOSE k \in DOMAIN s : s[k] = v

\* variables (from 0) a table depends on
Support(t, n) == { i \in 0..(n - 1) : \E a \in 0..(Pow2(n) - 1) : Bit(a, i) = 0 /\ t[a + 1] # t[a + Pow2(i) + 1] }

\* ---- reading back
Target(e, i) ==
  CASE e.m = "ids"     -> i
    [] e.m = "permids" -> Pos(e.permB, e.permA[i + 1]) - 1
    [] e.m = "auxids"  -> Pos(e.auxB, e.auxA[i + 1]) - 1
    [] e.m = "names"   -> Pos(e.nameB, e.nameA[i + 1]) - 1
    [] e.m = "compose" -> e.comp[i + 1]
RECURSIVE Back(_, _, _)
\* the assignment to the file's variables up to i seen through the assignment b of the receiver's
Back(tg, i, b) == IF i < 0 THEN 0 ELSE Back(tg, i - 1, b) + Pow2(i) * Bit(b, tg[i])
SameFunction(e, t, u) ==
  LET sup == Support(t, e.nA)
      tg  == [i \in 0..(e.nA - 1) |-> IF i \in sup THEN Target(e, i) ELSE 0]
  IN /\ Len(u) = Pow2(e.nB)
     /\ \A b \in 0..(Pow2(e.nB) - 1) : u[b + 1] = t[Back(tg, e.nA - 1, b) + 1]
AllSupport(e) == UNION { Support(e.f[k], e.nA) : k \in DOMAIN e.f }
Asc(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]

Why(e) ==
  CASE e.o \in {"bdd", "add"} ->
        (IF e.rc # 1 THEN "not stored"
         ELSE IF e.sane # 1 THEN "storing harmed the manager"
         ELSE IF e.hdr # 1 \/ e.hvars # e.nA \/ e.hroots # Len(e.f) \/ Rng(e.hids) # AllSupport(e) \/ e.hsupp # Len(e.hids) \/ Cardinality(AllSupport(e)) # e.hsupp
                 \/ e.hty # (IF e.o = "bdd" THEN 0 ELSE 1) THEN "the header is wrong"
         ELSE IF e.named = 1 /\ e.hnames # [k \in DOMAIN e.hids |-> e.nameA[e.hids[k] + 1]] THEN "the names are wrong"
         ELSE IF Len(e.g) # Len(e.f) THEN "not loaded"
         ELSE IF \E k \in DOMAIN e.g : ~SameFunction(e, e.f[Pos(e.roots, e.want[k])], e.g[k]) THEN "another function came back"
         ELSE IF e.canon # 1 THEN "what came back is not canonical"
         ELSE IF e.saneB # 1 \/ e.leak # 0 THEN "loading harmed the manager"
         ELSE "")

\* ---- CNF: satisfiability by splitting on a literal of a shortest clause
Reduce(cs, x) == { c \ {-x} : c \in { d \in cs : x \notin d } }
RECURSIVE Sat(_)
Sat(cs) == IF {} \in cs THEN FALSE ELSE IF cs = {} THEN TRUE
           ELSE LET c == CHOOSE d \in cs : \A b \in cs : Cardinality(d) <= Cardinality(b)
                    x == CHOOSE y \in c : TRUE
                IN Sat(Reduce(cs, x)) \/ (Cardinality(c) > 1 /\ Sat(Reduce(cs, -x)))
RECURSIVE Given(_, _, _, _)
Given(cs, cid, i, a) == IF i < 0 THEN cs ELSE Given(Reduce(cs, IF Bit(a, i) = 1 THEN cid[i + 1] ELSE -cid[i + 1]), cid, i - 1, a)
Clauses(e, k) == { Rng(e.cl[x]) : x \in e.start[k]..(IF k = Len(e.start) THEN Len(e.cl) ELSE e.start[k + 1] - 1) }
\* several functions stored node by node share the definitions of their nodes: the file is their conjunction
Shares(e) == Len(e.f) > 1 /\ e.m # "1"
Together(e) == LET cs == { Rng(e.cl[x]) : x \in DOMAIN e.cl }
               IN \A a \in 0..(Pow2(e.n) - 1) : (\A k \in DOMAIN e.f : e.f[k][a + 1] = 1) = Sat(Given(cs, e.cid, e.n - 1, a))
CnfMeans(e, k) == \A a \in 0..(Pow2(e.n) - 1) : (e.f[k][a + 1] = 1) = Sat(Given(Clauses(e, k), e.cid, e.n - 1, a))
Vars(e) == UNION { { Abs(x) : x \in Rng(e.cl[k]) } : k \in DOMAIN e.cl }
CSup(e) == UNION { Support(e.f[k], e.n) : k \in DOMAIN e.f }
WhyCnf(e) ==
  IF e.rc # 1 THEN "not stored"
  ELSE IF e.sane # 1 THEN "storing harmed the manager"
  ELSE IF e.pc # Len(e.cl) \/ e.nc # Len(e.cl) THEN "wrong number of clauses"
  ELSE IF \E v \in Vars(e) : v > e.pv THEN "a variable beyond the declared ones"
  ELSE IF Len(e.start) # Len(e.f) THEN "roots are missing"
  ELSE IF \E k \in DOMAIN e.start : e.start[k] \notin 1..(Len(e.cl) + 1) THEN "a root has no place"
  ELSE IF IF Shares(e) THEN ~Together(e) ELSE \E k \in DOMAIN e.f : ~CnfMeans(e, k) THEN "the clauses have other models"
  ELSE IF Rng(e.ids) # CSup(e) \/ Len(e.ids) # Cardinality(CSup(e)) \/ e.cnfids # [k \in DOMAIN e.ids |-> e.cid[e.ids[k] + 1]] THEN "the header is wrong"
  ELSE IF e.o = "cnf" /\ (e.lrc # 1 \/ Len(e.g) # Len(e.f)) THEN "not loaded"
  ELSE IF e.o = "cnf" /\ ~Shares(e) /\ \E k \in DOMAIN e.f : e.g[k] # e.f[k] THEN "another function came back"
  ELSE IF e.saneB # 1 THEN "loading harmed the manager" ELSE ""

VARIABLES h, n, bad
vars == <<h, n, bad>>
Fault(e) == IF e.o \in {"cnf", "cnfconst"} THEN WhyCnf(e) ELSE Why(e)
Init == h \in DOMAIN Hs /\ n = 1 /\ bad = <<>>
Next == /\ bad = <<>> /\ n <= Len(Hs[h])
        /\ LET w == Fault(Hs[h][n]) IN bad' = IF w = "" THEN <<>> ELSE <<h, n, Hs[h][n].o, w>>
        /\ n' = n + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
=============================================================================
