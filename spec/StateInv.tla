----------------------------- MODULE StateInv ------------------------------
(***************************************************************************)
(* The states reachable by executing applicable actions in any order (a    *)
(* superset of the states an HTN progression can reach), and the binary    *)
(* clauses the engine claims to hold in all of them.  CLAUSES is a JSON    *)
(* sequence, one record per instance:                                      *)
(*   cl - pairs of literals, one of which must hold in every state         *)
(*   ex - pairs of literals that cannot hold together                      *)
(* A literal f >= 0 is the fact f, -f-1 its negation.                      *)
(***************************************************************************)
EXTENDS HTN
Clauses == JsonDeserialize(IOEnv.CLAUSES)
VARIABLES i, st
Holds(l) == IF l >= 0 THEN l \in st ELSE (-l - 1) \notin st
Init == i \in 1..NI /\ st = Init0[i]
Next == \E a \in 0..(Insts[i].nA - 1) : Applicable(i, a, st) /\ st' = Result(i, a, st) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

ClausesHold == \A c \in Range(Clauses[i].cl) : Holds(c[1]) \/ Holds(c[2])
Exclusions  == \A c \in Range(Clauses[i].ex) : ~(Holds(c[1]) /\ Holds(c[2]))
=============================================================================
