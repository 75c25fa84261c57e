----------------------------- MODULE PlanTrace -----------------------------
(***************************************************************************)
(* Trace validation of the plans the engine prints.  A plan is a record    *)
(*   inst, acts: <<id, action>> in the printed order, root,                *)
(*   dec: <<id, task, method, children>>, cost, len, depth (levels of the  *)
(*   tree at most), each -1 if not claimed, bad                            *)
(* It is accepted iff it is a behaviour of HTN.tla: the root is the        *)
(* initial task, every decomposition is an application of a method of the  *)
(* task to exactly that task, each action is executed when it has no       *)
(* predecessor left and its precondition holds, nothing remains, and the   *)
(* goal holds at the end.  Behaviours are deterministic, so a plan is      *)
(* wrong iff its behaviour stops anywhere but in Accepted.                 *)
(***************************************************************************)
EXTENDS HTN

Plans == JsonDeserialize(IOEnv.PLANS)
NP    == Len(Plans)

VARIABLES p, pos, net, st, cost, nmod, done
\* net.t holds the plan's identifiers of the task instances, not the tasks
vars == <<p, pos, net, st, cost, nmod, done>>

Inst(x) == Plans[x].inst
DecIds(x)  == { Plans[x].dec[k][1] : k \in DOMAIN Plans[x].dec }
ActIds(x)  == { Plans[x].acts[k][1] : k \in DOMAIN Plans[x].acts }
Dec(x, id) == LET k == CHOOSE k \in DOMAIN Plans[x].dec : Plans[x].dec[k][1] = id IN Plans[x].dec[k]
ActPos(x, id) == CHOOSE k \in DOMAIN Plans[x].acts : Plans[x].acts[k][1] = id
TaskOf(x, id) == IF id \in ActIds(x) THEN Plans[x].acts[ActPos(x, id)][2]
                 ELSE IF id \in DecIds(x) THEN Dec(x, id)[2] ELSE -1

Kids(x) == UNION { Range(Dec(x, d)[4]) : d \in DecIds(x) }

\* the plan is a tree over its identifiers
WellFormed(x) ==
  /\ Plans[x].bad = 0
  /\ Cardinality(DecIds(x)) = Len(Plans[x].dec)
  /\ Cardinality(ActIds(x)) = Len(Plans[x].acts)
  /\ DecIds(x) \cap ActIds(x) = {}
  /\ Plans[x].root \in DecIds(x)
  /\ \A k \in DOMAIN Plans[x].acts : Plans[x].acts[k][2] \in 0..(Insts[Inst(x)].nA - 1)
  /\ \A d \in DecIds(x) : /\ Dec(x, d)[3] \in 0..(NM[Inst(x)] - 1)
                          /\ Insts[Inst(x)].methods[Dec(x, d)[3] + 1].task = Dec(x, d)[2]
                          /\ Len(Dec(x, d)[4]) = Len(SubsS[Inst(x)][Dec(x, d)[3]])
                          /\ Cardinality(Range(Dec(x, d)[4])) = Len(Dec(x, d)[4])
  \* every identifier but the root is a child of exactly one decomposition
  /\ Kids(x) = (DecIds(x) \cup ActIds(x)) \ {Plans[x].root}
  /\ \A d, e \in DecIds(x) : d # e => Range(Dec(x, d)[4]) \cap Range(Dec(x, e)[4]) = {}

RECURSIVE Leaves(_, _, _)
Leaves(x, id, fuel) == IF id \in ActIds(x) \/ fuel = 0 THEN {ActPos(x, id)}
                       ELSE UNION { Leaves(x, kid, fuel - 1) : kid \in Range(Dec(x, id)[4]) }
LeafPos(x, id) == Leaves(x, id, Len(Plans[x].dec) + 1)

RECURSIVE Depth(_, _, _)
Depth(x, id, fuel) == IF id \in ActIds(x) \/ fuel = 0 \/ Dec(x, id)[4] = <<>> THEN (IF id \in ActIds(x) THEN 0 ELSE 1)
                      ELSE LET D == { Depth(x, kid, fuel - 1) : kid \in Range(Dec(x, id)[4]) }
                           IN 1 + (CHOOSE d \in D : \A e \in D : e <= d)

\* which child plays which subtask of the method: any assignment that agrees on the tasks and
\* with the order in which the actions below the children are printed
Matches(x, d) ==
  LET m == Dec(x, d)[3]  ks == Dec(x, d)[4]  n == Len(ks) IN
  { f \in [1..n -> 1..n] :
      /\ \A a, b \in 1..n : a # b => f[a] # f[b]
      /\ \A a \in 1..n : TaskOf(x, ks[f[a]]) = SubsS[Inst(x)][m][a]
      /\ \A o \in OrdS[Inst(x)][m] :
           \A u \in LeafPos(x, ks[f[o[1]]]), v \in LeafPos(x, ks[f[o[2]]]) : u < v }

Init == /\ p \in 1..NP
        /\ pos = 1 /\ cost = 0 /\ nmod = 0 /\ done = FALSE
        /\ net = NetOf(<<Plans[p].root>>, {})
        /\ st = Init0[Inst(p)]

\* decompose the first unconstrained compound task as the plan says
Compound == { k \in First(net) : net.t[k] \in DecIds(p) }
DecomposeStep ==
  /\ Compound # {}
  /\ LET k == CHOOSE x \in Compound : \A y \in Compound : x <= y
         d == net.t[k]  m == Dec(p, d)[3]  ks == Dec(p, d)[4]
     IN /\ Matches(p, d) # {}
        /\ LET f == CHOOSE f \in Matches(p, d) : TRUE IN
           net' = Replace(net, k, [a \in 1..Len(ks) |-> ks[f[a]]], OrdS[Inst(p)][m])
  /\ nmod' = nmod + 1
  /\ UNCHANGED <<p, pos, st, cost, done>>

ActionStep ==
  /\ Compound = {}
  /\ pos <= Len(Plans[p].acts)
  /\ \E k \in First(net) :
       /\ net.t[k] = Plans[p].acts[pos][1]
       /\ LET a == Plans[p].acts[pos][2] IN
          /\ Applicable(Inst(p), a, st)
          /\ st' = Result(Inst(p), a, st)
          /\ cost' = cost + CostS[Inst(p)][a]
       /\ net' = Remove(net, k)
  /\ pos' = pos + 1 /\ nmod' = nmod + 1
  /\ UNCHANGED <<p, done>>

AtEnd == /\ Empty(net) /\ pos > Len(Plans[p].acts) /\ GoalS[Inst(p)] \subseteq st
         /\ Plans[p].cost \in {-1, cost}
         /\ Plans[p].len \in {-1, nmod}
         /\ Plans[p].depth = -1 \/ Depth(p, Plans[p].root, Len(Plans[p].dec) + 1) <= Plans[p].depth
Finish == ~done /\ AtEnd /\ done' = TRUE /\ UNCHANGED <<p, pos, net, st, cost, nmod>>

\* checked once, before the first step
Start == nmod > 0 \/
         /\ WellFormed(p)
         /\ TaskOf(p, Plans[p].root) = Insts[Inst(p)].init
Next == Start /\ (DecomposeStep \/ ActionStep \/ Finish)

Spec == Init /\ [][Next]_vars
\* a plan whose behaviour stops before it is accepted is not a solution
Accepted == done \/ (Start /\ (ENABLED DecomposeStep \/ ENABLED ActionStep \/ AtEnd))
=============================================================================
