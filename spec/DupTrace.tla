------------------------------ MODULE DupTrace ------------------------------
(***************************************************************************)
(* The visited list as an abstract data type: a set of (state, network up  *)
(* to isomorphism) classes, each with the smallest f-value inserted.       *)
(*                                                                         *)
(* LOGS: one record per visited list that was driven:                      *)
(*   nodes (as in NodeTrace), ev: <<node, f, answer>> in order,            *)
(*   reopen (1: a cheaper node is new again), exact (1: the configuration  *)
(*   recognises every duplicate), att / uniq (its counters).               *)
(* A node may be rejected only if an isomorphic node in the same state was *)
(* accepted before with no greater f (any f without reopening); with an    *)
(* exact configuration it must be.                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Logs == JsonDeserialize(IOEnv.LOGS)
Range(s) == { s[k] : k \in DOMAIN s }
RECURSIVE TC(_)
TC(R) == LET T == R \cup { <<pq[1][1], pq[2][2]>> : pq \in { x \in R \X R : x[1][2] = x[2][1] } }
         IN IF T = R THEN R ELSE TC(T)

NL == Len(Logs)
St(l, n)  == Range(Logs[l].nodes[n].st)
T(l, n)   == Logs[l].nodes[n].t
\* closed orderings of all nodes, computed once
Ord == [l \in 1..NL |-> [n \in 1..Len(Logs[l].nodes) |-> TC(Range(Logs[l].nodes[n].o))]]

\* a label of a step that every isomorphism preserves
Sig == [l \in 1..NL |-> [n \in 1..Len(Logs[l].nodes) |-> [j \in 1..Len(T(l, n)) |->
         <<T(l, n)[j], Cardinality({ p \in Ord[l][n] : p[1] = j }), Cardinality({ p \in Ord[l][n] : p[2] = j })>>]]]

\* extend the partial bijection f (steps 1..k-1 of network a to steps of b) to all steps
RECURSIVE Extend(_, _, _, _, _)
Extend(l, a, b, k, f) ==
  IF k > Len(T(l, a)) THEN TRUE
  ELSE \E j \in 1..Len(T(l, b)) :
         /\ Sig[l][a][k] = Sig[l][b][j]
         /\ j \notin Range(f)
         /\ \A i \in 1..(k - 1) : /\ (<<i, k>> \in Ord[l][a]) = (<<f[i], j>> \in Ord[l][b])
                                  /\ (<<k, i>> \in Ord[l][a]) = (<<j, f[i]>> \in Ord[l][b])
         /\ Extend(l, a, b, k + 1, Append(f, j))
Bag(l, n, x) == Cardinality({ j \in DOMAIN Sig[l][n] : Sig[l][n][j] = x })
Iso(l, a, b) ==
  /\ Len(T(l, a)) = Len(T(l, b))
  /\ Range(Sig[l][a]) = Range(Sig[l][b])
  /\ \A x \in Range(Sig[l][a]) : Bag(l, a, x) = Bag(l, b, x)
  /\ Extend(l, a, b, 1, <<>>)
Same(l, a, b) == St(l, a) = St(l, b) /\ Iso(l, a, b)

VARIABLES l,      \* which visited list
          k,      \* number of insertions so far
          best,   \* accepted classes: a function from a representative node to its smallest f
          hit     \* the representatives the next node to be inserted is equivalent to
vars == <<l, k, best, hit>>

Known(x, n, bst) == { r \in DOMAIN bst : Same(x, r, n) }
Init == l \in 1..NL /\ k = 0 /\ best = <<>> /\ hit = {}
Ev == Logs[l].ev[k + 1]
Worse == \E r \in hit : Logs[l].reopen = 0 \/ best[r] <= Ev[2]

Allowed == IF Ev[3] = 0 THEN Worse ELSE Logs[l].exact = 0 \/ ~Worse

Insert ==
  /\ k < Len(Logs[l].ev)
  /\ best' = IF hit = {} THEN (Ev[1] :> Ev[2]) @@ best
             ELSE [r \in DOMAIN best |-> IF r \in hit /\ Ev[2] < best[r] THEN Ev[2] ELSE best[r]]
  /\ k' = k + 1 /\ UNCHANGED l
  /\ hit' = IF k' < Len(Logs[l].ev) THEN Known(l, Logs[l].ev[k' + 1][1], best') ELSE {}
Next == Insert
Spec == Init /\ [][Next]_vars

AnswerOK == k >= Len(Logs[l].ev) \/ Allowed
\* the counters of the visited list
CountOK == k < Len(Logs[l].ev) \/
  /\ Logs[l].att = Len(Logs[l].ev)
  /\ Logs[l].uniq = Cardinality({ x \in DOMAIN Logs[l].ev : Logs[l].ev[x][3] = 1 })
=============================================================================
