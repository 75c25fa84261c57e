------------------------------ MODULE ZddTrace ------------------------------
(* The register machine of BddTrace over zero-suppressed diagrams.          *)
EXTENDS ZddOps, Json, IOUtils

Log == JsonDeserialize(IOEnv.TRACE)      \* a sequence of histories

VARIABLES k, l, reg, id, bad
vars == <<k, l, reg, id, bad>>

Housekeeping == {"init", "gc", "reorder", "shuffle"}
E == Log[k][l]
NB == Log[k][1].x[2]                     \* number of Boolean variables
Args(e) == [j \in 1..Len(e.a) |-> reg[e.a[j]]]
Null(e) == e.r = <<>> /\ e.y = <<-1>>
Canonical(r, i) == \A q \in 1..Len(reg) : (reg[q] = r) <=> (id[q] = i)

Verdict(e) ==
    IF e.o \in Housekeeping
    THEN IF e.r # reg THEN "a register changed" ELSE IF e.a # id THEN "a node moved" ELSE IF e.y # <<1>> THEN "inconsistent manager" ELSE ""
    ELSE IF Null(e) THEN "no result"
    ELSE IF e.o \in ZExact
    THEN IF e.r[1] # ZValue(e, Args(e), reg[1]) THEN "wrong family"
         ELSE IF e.i >= 0 /\ ~ Canonical(e.r[1], e.i) THEN "not canonical" ELSE ""
    ELSE IF e.o = "order" THEN IF e.x = e.y THEN "" ELSE "wrong order"
    ELSE IF e.o = "zeroRef" THEN IF e.y[1] = 0 THEN "" ELSE "references left"
    ELSE IF e.o = "check" THEN IF e.y = <<1>> THEN "" ELSE "inconsistent manager"
    ELSE IF e.o \notin ZKnown THEN "unknown operation"
    ELSE IF ~ ZRight(e, Args(e), reg[1], NB) THEN "wrong result"
    ELSE IF e.i >= 0 /\ ~ Canonical(e.r[1], e.i) THEN "not canonical" ELSE ""

Init == /\ k \in 1..Len(Log) /\ l = 2
        /\ reg = Log[k][1].r /\ id = Log[k][1].a
        /\ bad = IF Log[k][1].y = <<1>> /\ \A q \in 1..Len(reg) : On(reg[q]) = {} /\ id[q] = id[1] THEN <<>> ELSE <<k, 1, "init", "wrong start">>

Next == /\ l <= Len(Log[k]) /\ bad = <<>>
        /\ l' = l + 1 /\ k' = k
        /\ LET v == Verdict(E) IN bad' = IF v = "" THEN <<>> ELSE <<k, l, E.o, v>>
        /\ IF E.d > 0 /\ E.r # <<>>
           THEN reg' = [reg EXCEPT ![E.d] = E.r[1]] /\ id' = [id EXCEPT ![E.d] = E.i]
           ELSE UNCHANGED <<reg, id>>

Fine == bad = <<>>
=============================================================================
