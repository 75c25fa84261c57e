----------------------------- MODULE NodeTrace -----------------------------
(***************************************************************************)
(* Trace validation of the engine's progression.  For every instance,      *)
(* WALKS holds search nodes the engine produced and the edges between      *)
(* them.  A node is                                                        *)
(*   st (facts), id (identity of each step), t (its task), o (successor    *)
(*   lists, as pairs of positions), fa/fp (unconstrained compound and      *)
(*   primitive steps), md/mmd/g (number of modifications, cost plus        *)
(*   decompositions, cost), ct (contained tasks with counts), rt (actions  *)
(*   reachable from each unconstrained step), app (steps the engine calls  *)
(*   applicable), goal, gr (0: the engine says there is no way on).        *)
(* An edge names the step that was decomposed or executed and carries the  *)
(* engine's own trace of what it did: the chosen transition and then the   *)
(* actions it executed greedily.                                           *)
(*                                                                         *)
(* The behaviour of this module replays the trace with the transitions of  *)
(* HTN.tla.  StepOK says that each entry of the trace is a transition the  *)
(* specification allows there, EndOK that the engine's child is exactly    *)
(* where the specification arrives.                                        *)
(***************************************************************************)
EXTENDS HTN

Walks == JsonDeserialize(IOEnv.WALKS)

VARIABLES w, e, k, net, st, md, mmd, g
\* net.t holds identities of steps
vars == <<w, e, k, net, st, md, mmd, g>>

Node(x, n) == Walks[x].nodes[n]
Edge == Walks[w].edges[e]
NetOfNode(n) == NetOf(n.id, TC(Range(n.o)))
\* tasks of the steps: those of the parent, and those the decomposition introduces
TaskIn(n, id) == n.t[CHOOSE j \in DOMAIN n.id : n.id[j] = id]
First1 == Edge.tr[1]
TaskOf(id) ==
  LET p == Node(w, Edge.p) IN
  IF Edge.dec = 1 /\ k > 0 /\ id[1] = First1[5]
  THEN SubsS[w][First1[2]][id[2] + 1]
  ELSE TaskIn(p, id)

Init == /\ w \in 1..NI
        /\ e \in 1..Len(Walks[w].edges)
        /\ k = 0
        /\ LET p == Node(w, Edge.p) IN
           /\ net = NetOfNode(p) /\ st = Range(p.st)
           /\ md = p.md /\ mmd = p.mmd /\ g = p.g

Entry == Edge.tr[k + 1]
EId == <<Entry[3], Entry[4]>>
PosOf(id) == CHOOSE j \in DOMAIN net.t : net.t[j] = id

\* what the engine was asked to do is what the trace starts with
AsAsked == k > 0 \/ ( /\ EId = Edge.s
                      /\ IF Edge.dec = 1 THEN Entry[2] = Edge.m ELSE Entry[2] = -1 /\ Entry[1] = Edge.m )

EffectFree(a) == AddS[w][a] = {} /\ DelS[w][a] = {}
Here(j) == TaskOf(net.t[j])
Runnable == { j \in First(net) : Prim(w, Here(j)) /\ Applicable(w, Here(j), st) }
NoAbstract == \A j \in DOMAIN net.t : j \in First(net) => Prim(w, Here(j))
\* after the transition that was asked for, an action may be executed at once only if that commutes
\* with everything else (no effects) or if it is the only way on
Greedy(j) == EffectFree(Here(j)) \/ (NoAbstract /\ Runnable = {j})

StepEnabled ==
  /\ k < Len(Edge.tr)
  /\ AsAsked
  /\ EId \in Range(net.t)
  /\ LET j == PosOf(EId) IN
     /\ j \in First(net)
     /\ Here(j) = Entry[1]
     /\ IF Entry[2] >= 0
        THEN k = 0 /\ Entry[2] \in MethS[w][Entry[1]]
        ELSE Prim(w, Entry[1]) /\ j \in Runnable /\ (k = 0 \/ Greedy(j))

Step ==
  /\ StepEnabled
  /\ LET j == PosOf(EId) IN
     IF Entry[2] >= 0
     THEN /\ net' = Replace(net, j, [s \in 1..Len(SubsS[w][Entry[2]]) |-> <<Entry[5], s - 1>>], OrdS[w][Entry[2]])
          /\ mmd' = mmd + 1
          /\ UNCHANGED <<st, g>>
     ELSE /\ net' = Remove(net, j)
          /\ st' = Result(w, Entry[1], st)
          /\ mmd' = mmd + CostS[w][Entry[1]]
          /\ g' = g + CostS[w][Entry[1]]
  /\ md' = md + 1
  /\ k' = k + 1
  /\ UNCHANGED <<w, e>>

Next == Step
Spec == Init /\ [][Next]_vars

Ids(n) == { <<n.id[j], n.t[j]>> : j \in DOMAIN n.id }
\* orderings as pairs of identities
OrdIds(n) == LET o == TC(Range(n.o)) IN { <<n.id[p[1]], n.id[p[2]]>> : p \in o }
AtEnd == Len(Edge.tr) > 0 /\ k = Len(Edge.tr)
NetIds == { <<net.t[j], TaskOf(net.t[j])>> : j \in DOMAIN net.t }
NetOrdIds == { <<net.t[p[1]], net.t[p[2]]>> : p \in net.o }

StepOK == AtEnd \/ StepEnabled
EndOK == AtEnd =>
  LET n == Node(w, Edge.c) IN
  /\ Cardinality(Ids(n)) = Len(n.id) /\ Cardinality(Range(n.id)) = Len(n.id)
  /\ Ids(n) = NetIds /\ Len(n.id) = Len(net.t)
  /\ OrdIds(n) = NetOrdIds
  /\ Range(n.st) = st
  /\ n.md = md /\ n.mmd = mmd /\ n.g = g
  \* the unconstrained steps, the applicable ones and the goal test agree
  /\ Range(n.fa) = { j \in First(NetOfNode(n)) : ~Prim(w, n.t[j]) }
  /\ Range(n.fp) = { j \in First(NetOfNode(n)) : Prim(w, n.t[j]) }
  /\ Len(n.fa) = Cardinality(Range(n.fa)) /\ Len(n.fp) = Cardinality(Range(n.fp))
  /\ Range(n.app) = { j \in Range(n.fp) : Applicable(w, n.t[j], st) }
  /\ (n.goal = 1) = (Len(n.t) = 0 /\ GoalS[w] \subseteq st)
  \* a node is given up only when nothing can be done in it
  /\ n.gr = 0 => Len(n.t) > 0 /\ Runnable = {} /\ NoAbstract
=============================================================================
