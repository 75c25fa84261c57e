------------------------------ MODULE BddTrace ------------------------------
(* A register machine over a decision-diagram manager: each register holds *)
(* a Boolean function and the identity of the node that represents it.     *)
(* Operations write one register; reordering, collection and new variables *)
(* write none.  The manager also keeps one map between variables, which    *)
(* stays until it is set again; variables made later map to themselves.    *)
(* A logged history of the library is one behaviour of it.                *)
EXTENDS BddOps, Json, IOUtils

Log == JsonDeserialize(IOEnv.TRACE)      \* a sequence of histories

VARIABLES k, l, reg, id, map, bad
vars == <<k, l, reg, id, map, bad>>

Housekeeping == {"init", "gc", "reorder", "shuffle", "newvar", "group", "bind"}
E == Log[k][l]
Args(e) == [j \in 1..Len(e.a) |-> reg[e.a[j]]]
Null(e) == e.r = <<>> /\ e.y = <<-1>>

\* equal functions are the same node, different functions different nodes
Canonical(r, i) == \A q \in 1..Len(reg) : (reg[q] = r) <=> (id[q] = i)

Verdict(e) ==
    IF e.o \in Housekeeping
    THEN IF e.r # reg THEN "a register changed" ELSE IF e.a # id THEN "a node moved" ELSE IF e.y # <<1>> THEN "inconsistent manager" ELSE ""
    ELSE IF e.o = "setMap" THEN IF e.y = <<1>> THEN "" ELSE "map not set"
    ELSE IF e.o = "varMap" /\ (map = <<>>) # Null(e) THEN "map set, or not"
    ELSE IF Null(e) THEN IF (e.o = "varMap" \/ (e.o \in Limited /\ LimitOf(e) < 1000000)) THEN "" ELSE "no result"
    ELSE IF e.o \in Exact
    THEN IF ~ (e.o = "essential" /\ On(Args(e)[1]) = {}) /\ e.r[1] # Value(IF e.o = "varMap" THEN [e EXCEPT !.x = map] ELSE e, Args(e), reg[1], reg) THEN "wrong function"
         ELSE IF e.i >= 0 /\ ~ Canonical(e.r[1], e.i) THEN "not canonical"
         ELSE IF e.y # <<>> /\ e.y # <<1>> THEN "wrong flag" ELSE ""
    ELSE IF e.o \notin Known THEN "unknown operation"
    ELSE IF ~ Right(e, Args(e), reg[1]) THEN "wrong result"
    ELSE IF e.i >= 0 /\ ~ Canonical(e.r[1], e.i) THEN "not canonical" ELSE ""

Init == /\ k \in 1..Len(Log) /\ l = 2
        /\ map = <<>>
        /\ reg = Log[k][1].r /\ id = Log[k][1].a
        /\ bad = IF Log[k][1].y = <<1>> /\ \A q \in 1..Len(reg) : On(reg[q]) = {} /\ id[q] = id[1] THEN <<>> ELSE <<k, 1, "init", "wrong start">>

Next == /\ l <= Len(Log[k]) /\ bad = <<>>
        /\ l' = l + 1 /\ k' = k
        /\ LET v == Verdict(E) IN bad' = IF v = "" THEN <<>> ELSE <<k, l, E.o, v>>
        /\ map' = IF E.o = "setMap" THEN SwapPerm(NV(reg[1]), E.x) ELSE map
        /\ IF E.d > 0 /\ E.r # <<>>
           THEN reg' = [reg EXCEPT ![E.d] = E.r[1]] /\ id' = [id EXCEPT ![E.d] = E.i]
           ELSE UNCHANGED <<reg, id>>

Fine == bad = <<>>
=============================================================================
