---------------------------- MODULE ClauseTrace ----------------------------
(***************************************************************************)
(* The clause helpers the SAT planner's formulas are written with.  A      *)
(* state is the set of constraints posted to the solver over numbered      *)
(* inputs; what a query under assumptions may answer is given by the       *)
(* constraints' meaning alone: the helpers' auxiliary variables must       *)
(* neither cut off an assignment of the inputs nor let one through.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hs == JsonDeserialize(IOEnv.TRACE)

VARIABLES h, n, m, posted, bad
vars == <<h, n, m, posted, bad>>
E == Hs[h][n]
Ran(s) == {s[x] : x \in DOMAIN s}

\* c holds when T is the set of the true inputs
Holds(c, T) == LET I == Ran(c.i)  J == Ran(c.j) IN
  CASE c.c = "yes"        -> c.i[1] \in T
    [] c.c = "no"         -> c.i[1] \notin T
    [] c.c = "implies"    -> c.i[1] \in T => c.j[1] \in T
    [] c.c = "impliesNot" -> c.i[1] \in T => c.j[1] \notin T
    [] c.c \in {"impliesAnd", "andImplies", "setImplies"} -> I \subseteq T => c.j[1] \in T
    [] c.c = "impliesOr"  -> c.i[1] \in T => J \cap T # {}
    [] c.c = "posNegOr"   -> (c.i[1] \in T /\ c.i[2] \notin T) => J \cap T # {}
    [] c.c = "allNot"     -> c.i[1] \in T => J \cap T = {}
    [] c.c = "notAllNot"  -> c.i[1] \notin T => J \cap T = {}
    [] c.c = "notAll"     -> ~(I \subseteq T)
    [] c.c = "amo"        -> Cardinality(I \cap T) <= 1
    [] c.c = "alo"        -> I \cap T # {}
    [] c.c = "amk"        -> Cardinality(I \cap T) <= c.k

Satisfiable(t, f) == \E X \in SUBSET ((1..m) \ (t \cup f)) : \A x \in DOMAIN posted : Holds(posted[x], t \cup X)

\* many inputs, one cardinality constraint over all of them: K is its bound, and the false inputs do not matter
K == IF posted[1].c = "amo" THEN 1 ELSE posted[1].k

Ok ==
  CASE E.o = "inputs" -> n = 1
    [] E.o = "post"   -> Ran(E.i) \cup Ran(E.j) \subseteq 1..m
    [] E.o = "ask"    -> (E.r = 1) <=> Satisfiable(Ran(E.i), Ran(E.j))
    [] E.o = "bigask" -> Len(posted) = 1 /\ ((E.r = 1) <=> Cardinality(Ran(E.i)) <= K)
       \* many pairs of inputs, and every single one, were asked for: i shows pairs allowed, j single inputs refused
    [] E.o = "pairs"  -> Len(posted) = 1 /\ (K < 2 => E.i = <<>>) /\ (K >= 1 => E.j = <<>>)

Init == h \in DOMAIN Hs /\ n = 1 /\ m = 0 /\ posted = <<>> /\ bad = <<>>
Next == /\ bad = <<>> /\ n <= Len(Hs[h])
        /\ bad' = IF Ok THEN <<>> ELSE <<h, n, E.o, IF posted = <<>> THEN "" ELSE posted[Len(posted)].c>>
        /\ m' = IF E.o = "inputs" THEN E.k ELSE m
        /\ posted' = IF E.o = "post" THEN Append(posted, [c |-> E.c, k |-> E.k, i |-> E.i, j |-> E.j]) ELSE posted
        /\ n' = n + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
=============================================================================
