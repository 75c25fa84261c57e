----------------------------- MODULE HtnSearch -----------------------------
(***************************************************************************)
(* The reachable networks of a batch of problem instances, explored        *)
(* exhaustively up to a bound on the network size, and the claims the      *)
(* engine made about each instance as invariants of that exploration.      *)
(*                                                                         *)
(* CLAIMS is a JSON sequence of records                                    *)
(*   inst  - number of the instance (from 1)                               *)
(*   kind  - "unsolvable": the engine says there is no solution            *)
(*           "cost"  : every solution costs at least bound                 *)
(*           "mods"  : every solution has at least bound modifications     *)
(*                     (decompositions plus actions)                       *)
(*           "mixed" : cost of the actions plus number of decompositions   *)
(*           "depth" : every solution's decomposition tree is at least     *)
(*                     bound levels deep                                   *)
(*           "width" : every solution needs a network of at least bound    *)
(*                     tasks at some point of every progression            *)
(*           "seq"   : the same for the part of the network that stems     *)
(*                     from one of the first method's subtasks             *)
(*           "lm"    : every solution has, at some point, one of the facts  *)
(*                     or tasks or applies one of the methods in lm,       *)
(*                     a sequence of pairs: 0 fact, 1 task, 2 method; and  *)
(*                     its number                                          *)
(*           "never" : no solution meets or applies any of those            *)
(*   bound - the number                                                    *)
(*   size  - bound on the number of tasks in a network                     *)
(*   start - 1: start from the network net, ord and the facts st             *)
(* The claim is broken exactly when a state satisfying Goal is reached      *)
(* with a smaller value of the measure q.                                  *)
(***************************************************************************)
EXTENDS HTN

Claims == JsonDeserialize(IOEnv.CLAIMS)
NC     == Len(Claims)

VARIABLES c,     \* which claim is being examined
          net,   \* the task network; with kind "depth", lev gives each task's level
          lev,   \* levels of the tasks (empty for the other kinds)
          st,    \* the true facts
          q      \* the measure so far
vars == <<c, net, lev, st, q>>

I(x) == Claims[x].inst
Kind(x) == Claims[x].kind
Bounded(x) == Kind(x) \notin {"unsolvable", "lm", "never"}

StartNet(x) == IF Claims[x].start = 0 THEN InitNet(I(x))
               ELSE NetOf(Claims[x].net, TC({ <<p[1] + 1, p[2] + 1>> : p \in Range(Claims[x].ord) }))
StartSt(x)  == IF Claims[x].start = 0 THEN Init0[I(x)] ELSE Range(Claims[x].st)

\* landmarks: exploration goes on without meeting any of them
Of(x, type) == { l[2] : l \in { y \in Range(Claims[x].lm) : y[1] = type } }
Meets(nn, s) == Of(c, 0) \cap s # {} \/ Of(c, 1) \cap Range(nn.t) # {}
Met == Kind(c) = "lm" /\ Meets(net, st)
Allowed(m) == Kind(c) # "lm" \/ m \notin Of(c, 2)

Init == /\ c \in 1..NC
        /\ net = StartNet(c)
        /\ lev = IF Kind(c) \in {"depth", "seq"} THEN [k \in 1..Len(net.t) |-> 0] ELSE <<>>
        /\ st = StartSt(c)
        /\ q = CASE Kind(c) \in {"width", "seq"} -> Len(net.t)
                 [] Kind(c) = "never" -> IF Meets(net, st) THEN 1 ELSE 0
                 [] OTHER -> 0

Max(a, b) == IF a > b THEN a ELSE b

\* levels of the new tasks when position k is decomposed by m; with kind "seq", the subtask of the first
\* method each of them stems from
NewLev(k, m) == [s \in 1..Len(SubsS[I(c)][m]) |-> IF Kind(c) = "depth" THEN lev[k] + 1 ELSE IF lev[k] = 0 THEN s ELSE lev[k]]
LevDec(k, m) == IF Kind(c) \in {"depth", "seq"} THEN SubSeq(lev, 1, k-1) \o NewLev(k, m) \o SubSeq(lev, k+1, Len(lev)) ELSE lev
\* the most tasks with one origin
Most(l) == LET N == { Cardinality({ k \in DOMAIN l : l[k] = x }) : x \in Range(l) } IN
           IF N = {} THEN 0 ELSE CHOOSE n \in N : \A m \in N : m <= n

\* growth of the measure by a decomposition to network nn at position k
QDec(k, nn, m) == CASE Kind(c) \in {"mods", "mixed"} -> q + 1
                 [] Kind(c) = "depth" -> Max(q, lev[k] + 1)
                 [] Kind(c) = "width" -> Max(q, Len(nn.t))
                 [] Kind(c) = "seq" -> Max(q, Most(LevDec(k, m)))
                 [] Kind(c) = "never" -> IF Meets(nn, st) \/ m \in Of(c, 2) THEN 1 ELSE q
                 [] OTHER -> q
QAct(a) == CASE Kind(c) = "mods" -> q + 1
             [] Kind(c) \in {"cost", "mixed"} -> q + CostS[I(c)][a]
             [] Kind(c) = "never" -> IF Meets(net, Result(I(c), a, st)) THEN 1 ELSE q
             [] OTHER -> q

Decompose(k) ==
  /\ ~Prim(I(c), net.t[k])
  /\ ~Met
  /\ \E m \in { x \in MethS[I(c)][net.t[k]] : Allowed(x) } :
       LET nn == DecompNet(I(c), net, k, m) IN
       /\ Len(nn.t) <= Claims[c].size
       /\ net' = nn
       /\ lev' = LevDec(k, m)
       /\ q' = QDec(k, nn, m)
       /\ UNCHANGED <<c, st>>

Execute(k) ==
  /\ ~Met
  /\ Prim(I(c), net.t[k])
  /\ Applicable(I(c), net.t[k], st)
  /\ st' = Result(I(c), net.t[k], st)
  /\ net' = Remove(net, k)
  /\ lev' = IF Kind(c) \in {"depth", "seq"} THEN SubSeq(lev, 1, k-1) \o SubSeq(lev, k+1, Len(lev)) ELSE lev
  /\ q' = QAct(net.t[k])
  /\ UNCHANGED c

\* Decomposing an unconstrained task commutes with every other transition except that the
\* network grows earlier, so it is enough to decompose the first one as soon as there is one.
\* (Not so for "width" and "seq", which are about when the network grows: there every order is explored.)
Abst == { k \in First(net) : ~Prim(I(c), net.t[k]) }
Next == IF Kind(c) \in {"width", "seq"}
        THEN \E k \in First(net) : Decompose(k) \/ Execute(k)
        ELSE IF Abst # {}
        THEN LET k == CHOOSE x \in Abst : \A y \in Abst : x <= y IN Decompose(k)
        ELSE \E k \in First(net) : Execute(k)

\* nothing beyond the claimed bound is of interest
Within == ~Bounded(c) \/ q < Claims[c].bound

Spec == Init /\ [][Next]_vars

Goal == IsGoal(I(c), net, st)
ClaimHolds == Goal => \/ Met
                      \/ Kind(c) = "never" /\ q = 0
                      \/ Bounded(c) /\ q >= Claims[c].bound
=============================================================================
