----------------------------- MODULE NodeStats -----------------------------
(***************************************************************************)
(* The statistics recorded in every search node (see NodeTrace) against    *)
(* their definition: contained tasks are the multiset of tasks of the      *)
(* network; the actions reachable from an unconstrained step are those     *)
(* that decomposing it or a step after it can introduce.                   *)
(***************************************************************************)
EXTENDS HTN
Walks == JsonDeserialize(IOEnv.WALKS)

\* tasks reachable in the decomposition hierarchy, as a least fixpoint
RECURSIVE Down(_, _)
Down(i, T) == LET N == T \cup UNION { Range(SubsS[i][m]) : m \in UNION { MethS[i][t] : t \in T } }
              IN IF N = T THEN T ELSE Down(i, N)
DownS == [i \in 1..NI |-> [t \in 0..(Insts[i].nT - 1) |-> { a \in Down(i, {t}) : Prim(i, a) }]]

VARIABLES w, n
vars == <<w, n>>
Init == w \in 1..NI /\ n \in 1..Len(Walks[w].nodes)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

N == Walks[w].nodes[n]
Count(t) == Cardinality({ j \in DOMAIN N.t : N.t[j] = t })
ContainedOK ==
  /\ { c[1] : c \in Range(N.ct) } = Range(N.t)
  /\ Len(N.ct) = Cardinality(Range(N.t))
  /\ \A c \in Range(N.ct) : c[2] = Count(c[1])

After(o, j) == {j} \cup { p[2] : p \in { x \in o : x[1] = j } }
ReachOK ==
  LET o == TC(Range(N.o)) IN
  /\ { r[1] : r \in Range(N.rt) } = Range(N.fa) \cup Range(N.fp)
  /\ \A r \in Range(N.rt) :
       { x \in Range(r[2]) : x < Insts[w].nA } = UNION { DownS[w][N.t[j]] : j \in After(o, r[1]) }
=============================================================================
