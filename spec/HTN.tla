-------------------------------- MODULE HTN --------------------------------
(***************************************************************************)
(* Semantics of grounded hierarchical (HTN) planning problems: states,     *)
(* task networks, and the two transitions of progression: decomposing a    *)
(* task by a method and executing an action.  Everything the planner of    *)
(* this repository promises is stated against these operators.             *)
(*                                                                         *)
(* The problem instances are read from the JSON file named by the          *)
(* environment variable INSTS: a sequence of records                       *)
(*   nF, nA, nT, init, actions (cost, pre, add, dl), s0, goal,             *)
(*   methods (task, subs, ord)                                             *)
(* with facts, tasks, actions and methods numbered from 0 (a task number   *)
(* below nA is an action) and ord a list of pairs of subtask positions,    *)
(* counted from 0.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Insts == JsonDeserialize(IOEnv.INSTS)
NI    == Len(Insts)
Range(s) == { s[k] : k \in DOMAIN s }

\* Transitive closure of a relation given as a set of pairs.
RECURSIVE TC(_)
TC(R) == LET T == R \cup { <<pq[1][1], pq[2][2]>> : pq \in { x \in R \X R : x[1][2] = x[2][1] } }
         IN IF T = R THEN R ELSE TC(T)

\* --- per-instance tables, computed once -----------------------------------
PreS  == [i \in 1..NI |-> [a \in 0..(Insts[i].nA - 1) |-> Range(Insts[i].actions[a+1].pre)]]
AddS  == [i \in 1..NI |-> [a \in 0..(Insts[i].nA - 1) |-> Range(Insts[i].actions[a+1].add)]]
DelS  == [i \in 1..NI |-> [a \in 0..(Insts[i].nA - 1) |-> Range(Insts[i].actions[a+1].dl)]]
CostS == [i \in 1..NI |-> [a \in 0..(Insts[i].nA - 1) |-> Insts[i].actions[a+1].cost]]
Init0 == [i \in 1..NI |-> Range(Insts[i].s0)]
GoalS == [i \in 1..NI |-> Range(Insts[i].goal)]
NM    == [i \in 1..NI |-> Len(Insts[i].methods)]
SubsS == [i \in 1..NI |-> [m \in 0..(NM[i] - 1) |-> Insts[i].methods[m+1].subs]]
OrdS  == [i \in 1..NI |-> [m \in 0..(NM[i] - 1) |->
             TC({ <<p[1] + 1, p[2] + 1>> : p \in Range(Insts[i].methods[m+1].ord) })]]
MethS == [i \in 1..NI |-> [t \in 0..(Insts[i].nT - 1) |->
             { m \in 0..(NM[i] - 1) : Insts[i].methods[m+1].task = t }]]

Prim(i, t) == t < Insts[i].nA

\* --- task networks: t is the sequence of tasks, o the (transitively closed)
\* --- ordering as a set of pairs of positions of t --------------------------
NetOf(ts, ord) == [t |-> ts, o |-> ord]
InitNet(i)     == NetOf(<<Insts[i].init>>, {})
Empty(net)     == net.t = <<>>

\* the positions without a predecessor: the only ones progression may touch
First(net) == { k \in 1..Len(net.t) : \A p \in net.o : p[2] # k }

\* network with position k replaced by the sequence ts ordered by ord
Replace(net, k, ts, ord) ==
  LET n    == Len(ts)
      M(j) == IF j < k THEN j ELSE j + n - 1
      old  == { p \in net.o : p[1] # k /\ p[2] # k }
      bef  == { p[1] : p \in { x \in net.o : x[2] = k } }
      aft  == { p[2] : p \in { x \in net.o : x[1] = k } }
  IN NetOf(SubSeq(net.t, 1, k-1) \o ts \o SubSeq(net.t, k+1, Len(net.t)),
           { <<M(p[1]), M(p[2])>> : p \in old }
             \cup { <<M(a), k - 1 + s>> : a \in bef, s \in 1..n }
             \cup { <<k - 1 + s, M(b)>> : b \in aft, s \in 1..n }
             \cup (IF n = 0 THEN { <<M(a), M(b)>> : a \in bef, b \in aft } ELSE {})
             \cup { <<k - 1 + p[1], k - 1 + p[2]>> : p \in ord })

Remove(net, k) == Replace(net, k, <<>>, {})

\* --- the two transitions ----------------------------------------------------
Applicable(i, a, st) == PreS[i][a] \subseteq st
\* delete effects take effect before add effects
Result(i, a, st)     == (st \ DelS[i][a]) \cup AddS[i][a]

DecompNet(i, net, k, m) == Replace(net, k, SubsS[i][m], OrdS[i][m])

IsGoal(i, net, st) == Empty(net) /\ GoalS[i] \subseteq st
=============================================================================
