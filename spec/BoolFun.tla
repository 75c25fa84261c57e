------------------------------ MODULE BoolFun ------------------------------
(* Boolean functions of at most eight variables, as vectors: the value for *)
(* the minterm m (bit i of m is the value of variable i) is f[m+1].        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Pow == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
P2(i) == Pow[i + 1]
BIT == [m \in 0..255 |-> [i \in 0..7 |-> (m \div P2(i)) % 2]]
Bit(m, i) == BIT[m][i]
With(m, i, b) == m + (b - Bit(m, i)) * P2(i)
Flip(m, i) == With(m, i, 1 - Bit(m, i))
Vars(mask) == {i \in 0..7 : Bit(mask, i) = 1}
MaskOf(S) == FoldSet(LAMBDA i, s : s + P2(i), 0, S)
NV(f) == CHOOSE n \in 0..8 : P2(n) = Len(f)
Ms(f) == 0..(Len(f) - 1)
At(f, m) == f[m + 1]
B(b) == IF b THEN 1 ELSE 0
Vec(f, Op(_)) == TLCEval([k \in 1..Len(f) |-> Op(k - 1)])   \* same width as f
On(f) == {m \in Ms(f) : At(f, m) = 1}
Const(f, c) == Vec(f, LAMBDA m : c)

Neg(f) == Vec(f, LAMBDA m : 1 - At(f, m))
AndF(f, g) == Vec(f, LAMBDA m : At(f, m) * At(g, m))
OrF(f, g) == Vec(f, LAMBDA m : B(At(f, m) + At(g, m) > 0))
XorF(f, g) == Vec(f, LAMBDA m : B(At(f, m) # At(g, m)))
IteF(f, g, h) == Vec(f, LAMBDA m : IF At(f, m) = 1 THEN At(g, m) ELSE At(h, m))
VarF(f, i) == Vec(f, LAMBDA m : Bit(m, i))
Implies(f, g) == \A k \in 1..Len(f) : f[k] <= g[k]
Agree(f, g, c) == \A k \in 1..Len(f) : c[k] = 1 => f[k] = g[k]   \* on the care set c

Ex1(f, i) == Vec(f, LAMBDA m : B(At(f, With(m, i, 0)) + At(f, With(m, i, 1)) > 0))
Un1(f, i) == Vec(f, LAMBDA m : At(f, With(m, i, 0)) * At(f, With(m, i, 1)))
ExistF(f, S) == FoldSet(LAMBDA i, g : Ex1(g, i), f, S \cap 0..(NV(f) - 1))
UnivF(f, S) == FoldSet(LAMBDA i, g : Un1(g, i), f, S \cap 0..(NV(f) - 1))
Cof1(f, i, b) == Vec(f, LAMBDA m : At(f, With(m, i, b)))
\* cofactor with respect to the cube of the variables S with the signs of ph
CofF(f, S, ph) == FoldSet(LAMBDA i, g : Cof1(g, i, Bit(ph, i)), f, S)
CubeF(f, S, ph) == Vec(f, LAMBDA m : B(\A i \in S : Bit(m, i) = Bit(ph, i)))
Depends(f, i) == \E m \in Ms(f) : Bit(m, i) = 0 /\ At(f, m) # At(f, m + P2(i))
Supp(f) == {i \in 0..(NV(f) - 1) : Depends(f, i)}
\* substitute sub[i+1] (a vector) for every variable i, simultaneously
SubstF(f, sub) ==
    Vec(f, LAMBDA m : At(f, FoldSet(LAMBDA i, s : s + P2(i) * At(sub[i + 1], m), 0, 0..(NV(f) - 1))))
\* rename variable i to p[i+1]
RenameF(f, p) ==
    Vec(f, LAMBDA m : At(f, FoldSet(LAMBDA i, s : s + P2(i) * Bit(m, p[i + 1]), 0, 0..(NV(f) - 1))))
\* the number written by the variables in the sequence v, first one most significant
RECURSIVE NumOf(_, _, _)
NumOf(m, v, acc) == IF v = <<>> THEN acc ELSE NumOf(m, Tail(v), 2 * acc + Bit(m, Head(v)))
Num(m, v) == NumOf(m, v, 0)

(* ---- the reduced ordered diagram of a function, from its definition ---- *)
\* the distinct non-constant subfunctions met from f when the variables are tested in the order o
RECURSIVE Subs(_, _)
Subs(F, o) ==       \* F: set of functions, o: sequence of the variables still to be tested
    IF o = <<>> THEN {} ELSE
    LET D == {f \in F : Depends(f, Head(o))}
        N == UNION {{Cof1(f, Head(o), 0), Cof1(f, Head(o), 1)} : f \in D} \cup (F \ D)
    IN  D \cup Subs(N, Tail(o))
Norm(f) == IF f[1] = 1 THEN Neg(f) ELSE f          \* complement edges: f and its negation share a node
RECURSIVE SubsC(_, _)
SubsC(F, o) ==
    IF o = <<>> THEN {} ELSE
    LET D == {f \in F : Depends(f, Head(o))}
        N == {Norm(f) : f \in UNION {{Cof1(g, Head(o), 0), Cof1(g, Head(o), 1)} : g \in D}} \cup (F \ D)
    IN  D \cup SubsC(N, Tail(o))
BddSize(F, o) == Cardinality(SubsC({Norm(f) : f \in F}, o)) + 1
AddSize(F, o) == Cardinality(Subs(F, o)) + Cardinality(UNION {{f[k] : k \in 1..Len(f)} : f \in F})
RECURSIVE Paths(_, _, _)
Paths(f, o, w) ==            \* paths of the diagram of f to any constant (w = 0), to one other than 0 (w = 1)
    IF o = <<>> THEN IF w = 0 \/ f[1] # 0 THEN 1 ELSE 0
    ELSE IF Depends(f, Head(o)) THEN Paths(Cof1(f, Head(o), 0), Tail(o), w) + Paths(Cof1(f, Head(o), 1), Tail(o), w)
    ELSE Paths(f, Tail(o), w)
RECURSIVE MinPath(_, _)
MinPath(f, o) ==             \* fewest nodes on a path to the constant one
    IF o = <<>> THEN IF f[1] = 1 THEN 0 ELSE 1000
    ELSE IF Depends(f, Head(o))
         THEN LET a == MinPath(Cof1(f, Head(o), 0), Tail(o)) b == MinPath(Cof1(f, Head(o), 1), Tail(o)) IN 1 + (IF a < b THEN a ELSE b)
         ELSE MinPath(f, Tail(o))

(* ---- minimisation under the order o of the variables ---- *)
\* the generalised cofactor: off the care set c the value at the nearest care minterm, nearness weighted by the order
RECURSIVE ConstrainF(_, _, _)
ConstrainF(f, c, o) ==
    IF o = <<>> THEN f ELSE
    LET i == Head(o) c0 == Cof1(c, i, 0) c1 == Cof1(c, i, 1) f0 == Cof1(f, i, 0) f1 == Cof1(f, i, 1) IN
    IF On(c) = Ms(c) \/ \A k \in 1..Len(f) : f[k] = f[1] THEN f
    ELSE IF On(c1) = {} THEN ConstrainF(f0, c0, Tail(o))
    ELSE IF On(c0) = {} THEN ConstrainF(f1, c1, Tail(o))
    ELSE LET r0 == ConstrainF(f0, c0, Tail(o)) r1 == ConstrainF(f1, c1, Tail(o)) IN Vec(f, LAMBDA m : IF Bit(m, i) = 1 THEN At(r1, m) ELSE At(r0, m))
\* the conjunction after the variables of g above those of f are quantified away; f is its own care set when g = f
RECURSIVE NPAndF(_, _, _)
NPAndF(f, g, o) ==
    IF f = g THEN Const(f, 1)
    ELSE IF Supp(g) = {} THEN AndF(f, g)
    ELSE IF Supp(f) = {} THEN f
    ELSE IF Depends(f, Head(o)) THEN AndF(f, g)
    ELSE NPAndF(f, Ex1(g, Head(o)), Tail(o))

(* ---- cubes ---- *)
Card1(m) == Cardinality({i \in 0..7 : Bit(m, i) = 1})
Dist(m, k) == Cardinality({i \in 0..7 : Bit(m, i) # Bit(k, i)})
IsCube(f) == On(f) # {} /\ Cardinality(On(f)) = P2(NV(f) - Cardinality(Supp(f)))
\* c is a prime implicant of f
IsPrime(c, f) == /\ IsCube(c) /\ Implies(c, f)
                 /\ \A i \in Supp(c) : ~ Implies(Ex1(c, i), f)
=============================================================================
