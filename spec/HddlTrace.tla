----------------------------- MODULE HddlTrace ------------------------------
(***************************************************************************)
(* A problem and the HDDL files the engine wrote for it.  HDDL is a JSON   *)
(* sequence, one record per instance of INSTS:                             *)
(*   noop, mprec - the tasks that only stand for nothing, and the actions  *)
(*                 that only test a method's precondition                  *)
(*   preds       - the facts declared, in the order of the file            *)
(*   tasks       - the abstract tasks declared                             *)
(*   methods     - task, hasPre, pre (facts), subs (tasks), ord (pairs of  *)
(*                 positions from 1)                                       *)
(*   actions     - id, pre, add, dl                                        *)
(*   top, s0, goal                                                         *)
(* with the names of the file already replaced by the numbers of INSTS, -1 *)
(* for names that are none or not unique.  The two describe the same       *)
(* problem if every method has the same network once the tasks for nothing *)
(* are taken out and preconditions are leading tasks.                      *)
(***************************************************************************)
EXTENDS HTN
Hddl == JsonDeserialize(IOEnv.HDDL)

VARIABLE i
Init == i \in 1..NI
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
H == Hddl[i]
Noop  == Range(H.noop)
Mprec == Range(H.mprec)

\* networks whose tasks are labels: a task number, or the facts a precondition task tests
Test(fs) == <<"test", fs>>
LabelOf(t) == IF t \in Mprec THEN Test(PreS[i][t]) ELSE <<"task", {t}>>
RECURSIVE Without(_)
Without(net) == IF \E k \in DOMAIN net.t : net.t[k] \in Noop
                THEN Without(Remove(net, CHOOSE k \in DOMAIN net.t : net.t[k] \in Noop)) ELSE net
Labelled(net) == [net EXCEPT !.t = [k \in DOMAIN net.t |-> LabelOf(net.t[k])]]
Given(m) == Labelled(Without(NetOf(SubsS[i][m], OrdS[i][m])))

Exported(r) ==
  LET n == Len(r.subs)
      own == TC({ <<p[1], p[2]>> : p \in Range(r.ord) })
      ts == [k \in 1..n |-> LabelOf(r.subs[k])]
  IN IF r.hasPre = 0 THEN [t |-> ts, o |-> own]
     ELSE [t |-> <<Test(Range(r.pre))>> \o ts,
           o |-> { <<p[1] + 1, p[2] + 1>> : p \in own } \cup { <<1, k + 1>> : k \in 1..n }]

\* positions of a mapped one by one to those of b, keeping labels and orderings
RECURSIVE Match(_, _, _)
Match(a, b, f) ==
  LET k == Len(f) + 1 IN
  IF k > Len(a.t) THEN TRUE
  ELSE \E x \in (1..Len(b.t)) \ Range(f) :
         /\ b.t[x] = a.t[k]
         /\ \A j \in 1..(k-1) : /\ (<<j, k>> \in a.o) <=> (<<f[j], x>> \in b.o)
                                /\ (<<k, j>> \in a.o) <=> (<<x, f[j]>> \in b.o)
         /\ Match(a, b, Append(f, x))
Iso(a, b) == Len(a.t) = Len(b.t) /\ Match(a, b, <<>>)

SameMethods ==
  /\ Len(H.methods) = NM[i]
  /\ \A m \in 0..(NM[i] - 1) : LET r == H.methods[m+1] IN
       r.task = Insts[i].methods[m+1].task /\ Iso(Given(m), Exported(r))

SameActions ==
  LET used == UNION { { t \in Range(H.methods[m].subs) : t < Insts[i].nA } : m \in 1..Len(H.methods) } IN
  /\ used \subseteq { a.id : a \in Range(H.actions) }
  /\ \A x, y \in DOMAIN H.actions : x # y => H.actions[x].id # H.actions[y].id
  /\ \A a \in Range(H.actions) :
       /\ a.id \in 0..(Insts[i].nA - 1)
       /\ Range(a.pre) = PreS[i][a.id]
       /\ Range(a.add) = AddS[i][a.id]
       /\ Range(a.dl) \ Range(a.add) = DelS[i][a.id] \ AddS[i][a.id]

SameNames == /\ Range(H.preds) = 0..(Insts[i].nF - 1) /\ Len(H.preds) = Insts[i].nF
             /\ Range(H.tasks) = Insts[i].nA..(Insts[i].nT - 1) /\ Len(H.tasks) = Insts[i].nT - Insts[i].nA
SameProblem == H.top = Insts[i].init /\ Range(H.s0) = Init0[i] /\ Range(H.goal) = GoalS[i]
=============================================================================
