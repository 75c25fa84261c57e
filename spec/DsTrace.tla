------------------------------ MODULE DsTrace ------------------------------
(***************************************************************************)
(* Recorded histories of the planner's integer structures and tries are    *)
(* behaviours of the abstract data types of IntAdts.                       *)
(***************************************************************************)
EXTENDS IntAdts, Json, IOUtils
Hs == JsonDeserialize(IOEnv.TRACE)

VARIABLES h, n, obj, bad
vars == <<h, n, obj, bad>>
E == Hs[h][n]

\* an access to the map under a key: it shows the last payload stored, and stores another
At(x, e) == LET key == <<e.y, e.a[1]>> IN IF key \in DOMAIN obj[x].c THEN obj[x].c[key] ELSE 0

Ok ==
  CASE E.o = "new"  -> E.k \in {"heap", "fringe"} \cup StackKinds \cup SetKinds /\ Shows(E.k, New(E.k), E)
    [] E.o = "keys" -> TRUE
    [] E.o = "at"   -> E.r[1] = At(E.x, E)
    [] E.x = 0      -> Arrays(E)
    [] E.k = "nodel" /\ E.o \in {"clone", "union", "inter", "minus"} ->
         Shows("nodel", [s |-> Algebra(E.o, obj[E.x].c.s, obj[E.y].c.s), ord |-> FALSE], E)
    [] OTHER -> /\ Returns(E.k, obj[E.x].p, obj[E.x].c, E)
                /\ Shows(E.k, After(E.k, obj[E.x].p, obj[E.x].c, E), E)
NextObj ==
  CASE E.o = "new"  -> (E.x :> [k |-> E.k, p |-> E.a, c |-> New(E.k)]) @@ obj
    [] E.o = "keys" -> (E.x :> [k |-> "trie", p |-> <<>>, c |-> <<>>]) @@ obj
    [] E.o = "at"   -> [obj EXCEPT ![E.x].c = (<<E.y, E.a[1]>> :> E.r[2]) @@ @]
    [] E.x = 0      -> obj
    [] E.k = "nodel" /\ E.o \in {"clone", "union", "inter", "minus"} ->
         (E.z :> [k |-> "nodel", p |-> <<>>, c |-> [s |-> Algebra(E.o, obj[E.x].c.s, obj[E.y].c.s), ord |-> FALSE]]) @@ obj
    [] OTHER -> [obj EXCEPT ![E.x].c = After(E.k, obj[E.x].p, @, E)]

Init == h \in DOMAIN Hs /\ n = 1 /\ obj = <<>> /\ bad = <<>>
Next == /\ bad = <<>> /\ n <= Len(Hs[h])
        /\ bad' = IF Ok THEN <<>> ELSE <<h, n, E.o, E.k>>
        /\ obj' = IF Ok THEN NextObj ELSE obj
        /\ n' = n + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
=============================================================================
