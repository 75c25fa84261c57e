------------------------------- MODULE ZddOps -------------------------------
(* What each operation on zero-suppressed diagrams has to return.  The     *)
(* diagrams denote families of sets of the variables 0..NV-1, here vectors *)
(* indexed by the bit mask of the set.  In histories with two variables    *)
(* per Boolean variable a set is a cube (2i: the literal x_i, 2i+1: its    *)
(* negation) and a family a cover.                                          *)
EXTENDS BoolFun

Bor(m, k) == FoldSet(LAMBDA i, s : s + P2(i) * (IF Bit(m, i) = 1 \/ Bit(k, i) = 1 THEN 1 ELSE 0), 0, 0..7)
Disjoint(m, k) == \A i \in 0..7 : Bit(m, i) + Bit(k, i) < 2
ProperM == [m \in 0..255 |-> \A i \in 0..3 : Bit(m, 2 * i) + Bit(m, 2 * i + 1) < 2]
FromSet(Z, S) == Vec(Z, LAMBDA m : B(m \in S))
Subset1(f, v) == Vec(f, LAMBDA m : IF Bit(m, v) = 0 THEN At(f, m + P2(v)) ELSE 0)
Subset0(f, v) == Vec(f, LAMBDA m : IF Bit(m, v) = 0 THEN At(f, m) ELSE 0)
Change(f, v) == Vec(f, LAMBDA m : At(f, Flip(m, v)))
Join(f, g) == LET F == On(f) G == On(g) IN {Bor(a, b) : a \in F, b \in G}
\* the largest family h of sets disjoint from those of g with h joined to g inside f
Quot(f, g) == LET G == On(g) IN Vec(f, LAMBDA m : B(\A b \in G : Disjoint(m, b) /\ At(f, Bor(m, b)) = 1))
CubeHolds(c, m, n) == \A i \in 0..(n - 1) : (Bit(c, 2 * i) = 1 => Bit(m, i) = 1) /\ (Bit(c, 2 * i + 1) = 1 => Bit(m, i) = 0)
CoverAt(C, m, n) == \E c \in C : CubeHolds(c, m, n)
CoverF(f, n) == LET C == On(f) IN TLCEval([k \in 1..P2(n) |-> B(CoverAt(C, k - 1, n))])
VarsOf(f) == UNION {{i \in 0..7 : Bit(m, i) = 1} : m \in On(f)}

(* the zero-suppressed diagram of a family, from its definition *)
RECURSIVE ZSubs(_, _)
ZSubs(F, o) ==
    IF o = <<>> THEN {} ELSE
    LET v == Head(o)
        D == {f \in F : \E m \in On(f) : Bit(m, v) = 1}
    IN  D \cup ZSubs(UNION {{Subset1(f, v), Subset0(f, v)} : f \in D} \cup (F \ D), Tail(o))
ZSize(f, o) == Cardinality(ZSubs({f}, o))

ZExact == {"load", "one", "zero", "union", "intersect", "diff", "ite", "subset1", "subset0", "change", "unateProduct", "divide", "ithVar", "fromBdd",
           "product", "weakDiv"}
ZValue(e, A, Z) ==
    LET x == e.x IN
    CASE e.o \in {"load", "fromBdd"} -> x
      [] e.o = "one" -> FromSet(Z, {0})
      [] e.o = "zero" -> Const(Z, 0)
      [] e.o = "union" -> OrF(A[1], A[2])
      [] e.o = "intersect" -> AndF(A[1], A[2])
      [] e.o = "diff" -> AndF(A[1], Neg(A[2]))
      [] e.o = "ite" -> IteF(A[1], A[2], A[3])
      [] e.o = "subset1" -> Subset1(A[1], x[1])
      [] e.o = "subset0" -> Subset0(A[1], x[1])
      [] e.o = "change" -> Change(A[1], x[1])
      [] e.o = "unateProduct" -> FromSet(Z, Join(A[1], A[2]))
      [] e.o = "divide" -> Quot(A[1], A[2])
      [] e.o = "ithVar" -> VarF(Z, x[1])
      [] e.o = "product" -> FromSet(Z, {m \in Join(A[1], A[2]) : ProperM[m]})
      [] e.o = "weakDiv" -> Quot(A[1], A[2])

\* nb: number of Boolean variables
ZRight(e, A, Z, nb) ==
    LET x == e.x y == e.y r == IF Len(e.r) > 0 THEN e.r[1] ELSE Z w == P2(nb) IN
    CASE e.o = "diffConst" -> y[1] = B(Implies(A[1], A[2]))
      [] e.o = "zcount" -> LET c == Cardinality(On(A[1])) IN y = <<c, c, ZSize(A[1], x), c>>
      [] e.o = "zsupport" -> y[1] = MaskOf(VarsOf(A[1]))
      [] e.o = "zpaths" -> Len(y) = Cardinality(On(A[1])) /\ {y[j] : j \in 1..Len(y)} = On(A[1])
      [] e.o = "toBdd" -> r = A[1]
      [] e.o = "coverFun" -> r = CoverF(A[1], nb)
      [] e.o = "zcomplement" -> CoverF(r, nb) = Neg(CoverF(A[1], nb)) /\ \A m \in On(r) : ProperM[m]
      [] e.o = "isop" -> Implies(SubSeq(x, 1, w), r) /\ Implies(r, SubSeq(x, w + 1, 2 * w))
      [] e.o = "isopCover" -> LET L == SubSeq(x, 1, w) U == SubSeq(x, w + 1, 2 * w) f == SubSeq(x, 2 * w + 1, 3 * w) C == On(r) IN
                              /\ CoverF(r, nb) = f /\ \A c \in C : ProperM[c]
                              /\ \A c \in C : \E m \in 0..(w - 1) : L[m + 1] = 1 /\ ~ CoverAt(C \ {c}, m, nb)          \* irredundant
ZKnown == {"diffConst", "zcount", "zsupport", "zpaths", "toBdd", "coverFun", "zcomplement", "isop", "isopCover"}
=============================================================================
