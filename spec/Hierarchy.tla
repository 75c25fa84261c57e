----------------------------- MODULE Hierarchy -----------------------------
(***************************************************************************)
(* What the engine derives from a problem's methods on loading, stated     *)
(* from the methods alone.  DERIVED is a JSON sequence, one record per     *)
(* instance, written by harness/drv_model.cpp from the engine's tables.    *)
(***************************************************************************)
EXTENDS HTN
Derived == JsonDeserialize(IOEnv.DERIVED)

VARIABLE k
Init == k \in 1..NI
Next == UNCHANGED k
Spec == Init /\ [][Next]_k

D      == Derived[k]
Tasks  == 0..(Insts[k].nT - 1)
Meths  == 0..(NM[k] - 1)
N(m)   == Len(SubsS[k][m])
Clo(m) == OrdS[k][m]                            \* closed, positions from 1
Red(m) == { p \in Clo(m) : ~\E x \in 1..N(m) : <<p[1], x>> \in Clo(m) /\ <<x, p[2]>> \in Clo(m) }

\* a list of alternating positions counted from 0, as a set of pairs, and whether it lists every pair once
PairsOf(l) == { <<l[2*j-1] + 1, l[2*j] + 1>> : j \in 1..(Len(l) \div 2) }
Same(l, S) == PairsOf(l) = S /\ Len(l) = 2 * Cardinality(S)
SetIs(l, S) == Range(l) = S /\ Len(l) = Cardinality(S)

\* --- orderings of the methods ------------------------------------------------
ReductionStored == \A m \in Meths : Same(D.red[m+1], Red(m))
ClosureStored   == \A m \in Meths : Same(D.clo[m+1], Clo(m))
Total(m) == 2 * Cardinality(Clo(m)) = N(m) * (N(m) - 1)
Chain(m) == \A p, q \in Red(m) : p # q => p[1] # q[1] /\ p[2] # q[2]
TotalOrder == /\ D.to = (IF \A m \in Meths : Total(m) THEN 1 ELSE 0)
              /\ \A m \in Meths : D.mto[m+1] = (IF Total(m) THEN 1 ELSE 0)
ParallelSequences ==
  D.par = (IF \A m \in Meths : Total(m) \/ (Insts[k].methods[m+1].task = Insts[k].init /\ Chain(m)) THEN 1 ELSE 0)
Linearisation ==
  \A m \in Meths : LET l == D.lin[m+1] IN
    /\ SetIs(l, 0..(N(m) - 1))
    /\ \A x, y \in 1..N(m) : <<l[x] + 1, l[y] + 1>> \in Clo(m) => x < y
Neighbours ==
  \A m \in Meths : \A x \in 1..N(m) :
    /\ SetIs(D.pre[m+1][x], { p[1] - 1 : p \in { q \in Clo(m) : q[2] = x } })
    /\ SetIs(D.suc[m+1][x], { p[2] - 1 : p \in { q \in Clo(m) : q[1] = x } })
FirstAndLast ==
  \A m \in Meths :
    /\ SetIs(D.first[m+1], { x \in 0..(N(m)-1) : \A p \in Clo(m) : p[2] # x + 1 })
    /\ SetIs(D.last[m+1], { x \in 0..(N(m)-1) : \A p \in Clo(m) : p[1] # x + 1 })

\* --- tasks and methods ---------------------------------------------------------
Subs(m) == Range(SubsS[k][m])
Tables ==
  /\ \A t \in Tasks : SetIs(D.meth[t+1], MethS[k][t]) /\ SetIs(D.used[t+1], { m \in Meths : t \in Subs(m) })
  /\ \A m \in Meths : LET l == D.dist[m+1] IN
       /\ { x[1] : x \in Range(l) } = Subs(m) /\ Len(l) = Cardinality(Subs(m))
       /\ \A x \in Range(l) : x[2] = Cardinality({ j \in 1..N(m) : SubsS[k][m][j] = x[1] })
       /\ \A x, y \in 1..Len(l) : x < y => l[x][1] < l[y][1]

\* --- the decomposition graph -----------------------------------------------------
Edges == { <<t, u>> \in Tasks \X Tasks : \E m \in MethS[k][t] : u \in Subs(m) }
RECURSIVE Down(_)
Down(S) == LET T == S \cup { e[2] : e \in { x \in Edges : x[1] \in S } } IN IF T = S THEN S ELSE Down(T)
ReachTab == [t \in Tasks |-> Down({t})]
OnCycle(R, t) == \E u \in R[t] : <<u, t>> \in Edges   \* u reachable from t, and back by one edge

Components ==
  LET R == ReachTab
      S == 0..(Len(D.sccs) - 1)
      scc(t) == D.scc[t+1]
      cyc == { s \in S : \E t \in Range(D.sccs[s+1]) : OnCycle(R, t) }
      succ == [s \in S |-> { scc(e[2]) : e \in { x \in Edges : scc(x[1]) = s } } \ {s}] IN
  /\ \A t, u \in Tasks : (scc(t) = scc(u)) <=> (u \in R[t] /\ t \in R[u])
  /\ \A s \in S : SetIs(D.sccs[s+1], { t \in Tasks : scc(t) = s }) /\ D.sccs[s+1] # <<>>
  /\ \A t \in Tasks : scc(t) \in S
  /\ D.maxscc = CHOOSE n \in { Len(D.sccs[s+1]) : s \in S } : \A s \in S : Len(D.sccs[s+1]) <= n
  /\ SetIs(D.cyc, cyc)
  /\ D.self = Cardinality({ s \in cyc : Len(D.sccs[s+1]) = 1 })
  /\ \A s \in S : SetIs(D.succ[s+1], succ[s]) /\ SetIs(D.pred[s+1], { x \in S : s \in succ[x] })
  /\ SetIs(D.top, S)
  /\ \A x, y \in 1..Len(D.top) : D.top[y] \in succ[D.top[x]] => y < x
  /\ \A s \in S : D.acyc[s+1] = (IF \A t \in Range(D.sccs[s+1]) : \A u \in R[t] : ~OnCycle(R, u) THEN 1 ELSE 0)
  /\ \A t \in Tasks : SetIs(D.reach[t+1], { u \in R[t] : u < Insts[k].nA })

\* --- cheapest decompositions ---------------------------------------------------------
INF == 1000000
RECURSIVE Sum(_, _, _)
Sum(v, l, j) == IF j > Len(l) THEN 0 ELSE LET r == v[l[j]] + Sum(v, l, j + 1) IN IF r > INF THEN INF ELSE r
MinOf(S) == IF S = {} THEN INF ELSE CHOOSE x \in S : \A y \in S : x <= y
\* from infinity downwards: the least value some finite decomposition has
RECURSIVE Least(_, _, _)
Least(v, base, w) ==
  LET n == [t \in Tasks |-> IF Prim(k, t) THEN base[t] ELSE MinOf({ w + Sum(v, SubsS[k][m], 1) : m \in MethS[k][t] } \cup {INF})]
  IN IF n = v THEN v ELSE Least(n, base, w)
From(base, w) == Least([t \in Tasks |-> IF Prim(k, t) THEN base[t] ELSE INF], base, w)
MinDistance == LET v == From([t \in Tasks |-> 1], 1) IN \A t \in Tasks : D.md[t+1] = v[t]
MinCost     == LET v == From([t \in Tasks |-> IF Prim(k, t) THEN CostS[k][t] ELSE 0], 0) IN \A t \in Tasks : D.mc[t+1] = v[t]
=============================================================================
