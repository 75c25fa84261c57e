---------------------------- MODULE Determinism ----------------------------
(***************************************************************************)
(* Self-composition of the planner: several runs started with the same     *)
(* input, options and seed advance in lock step, one observable event (a   *)
(* line of output, times removed) at a time.  A run that is a function of  *)
(* its input and seed shows the same event as the others at every step and *)
(* ends with them.                                                         *)
(*   RUNS: a JSON sequence of groups; a group is a sequence of runs; a run *)
(*   is a sequence of events.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Groups == JsonDeserialize(IOEnv.RUNS)
VARIABLES g, step
vars == <<g, step>>
Init == g \in 1..Len(Groups) /\ step = 0
More == \E k \in DOMAIN Groups[g] : step < Len(Groups[g][k])
Next == More /\ step' = step + 1 /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
Agree == step = 0 \/ \A a, b \in DOMAIN Groups[g] :
           /\ step <= Len(Groups[g][a]) /\ step <= Len(Groups[g][b])
           /\ Groups[g][a][step] = Groups[g][b][step]
=============================================================================
