------------------------------- MODULE AddOps -------------------------------
(* What each operation on arithmetic decision diagrams has to return: the  *)
(* diagrams denote functions from assignments to integers extended with    *)
(* plus and minus infinity.  Same events as BddOps.                         *)
EXTENDS BoolFun

INF == 999999
Inf(a) == a = INF \/ a = -INF
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
Plus(a, b) == IF a = INF \/ b = INF THEN INF ELSE IF a = -INF \/ b = -INF THEN -INF ELSE a + b
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF Inf(a) \/ Inf(b) THEN Sgn(a) * Sgn(b) * INF ELSE a * b
Mn(a, b) == IF a <= b THEN a ELSE b
Mx(a, b) == IF a >= b THEN a ELSE b
RECURSIVE PowI(_, _)
PowI(a, b) == IF b = 0 THEN 1 ELSE a * PowI(a, b - 1)
Lg(a) == CASE a = 1 -> 0 [] a = 2 -> 1 [] a = 4 -> 2 [] a = 8 -> 3
LnTenK == <<0, 6931, 10986, 13863, 16094, 17918, 19459, 20794>>   \* ln times 10000, rounded

Map1(f, Op(_)) == TLCEval([k \in 1..Len(f) |-> Op(f[k])])
Map2(f, g, Op(_, _)) == TLCEval([k \in 1..Len(f) |-> Op(f[k], g[k])])
IteV(f, g, h) == TLCEval([k \in 1..Len(f) |-> IF f[k] # 0 THEN g[k] ELSE h[k]])
Abs1(f, i, Op(_, _)) == Vec(f, LAMBDA m : Op(At(f, With(m, i, 1)), At(f, With(m, i, 0))))
AbsS(f, S, Op(_, _)) == FoldSet(LAMBDA i, g : Abs1(g, i, Op), f, S \cap 0..(NV(f) - 1))
Half(x, h) == LET k == Len(x) \div 2 IN SubSeq(x, h * k + 1, (h + 1) * k)
SwapP(n, x) == LET h == Len(x) \div 2
               IN [k \in 1..n |-> IF \E j \in 1..h : x[j] = k - 1 THEN x[h + (CHOOSE j \in 1..h : x[j] = k - 1)]
                                  ELSE IF \E j \in 1..h : x[h + j] = k - 1 THEN x[CHOOSE j \in 1..h : x[h + j] = k - 1]
                                  ELSE k - 1]
\* substitution of a pair of functions for the two literals of each variable, along the diagram of f
RECURSIVE Gen(_, _, _, _)
Gen(f, o, on, off) ==
    IF o = <<>> THEN f ELSE
    LET v == Head(o) IN
    IF Depends(f, v)
    THEN LET a == Gen(Cof1(f, v, 1), Tail(o), on, off) b == Gen(Cof1(f, v, 0), Tail(o), on, off)
         IN  TLCEval([k \in 1..Len(f) |-> Plus(Mul(on[v + 1][k], a[k]), Mul(off[v + 1][k], b[k]))])
    ELSE Gen(f, Tail(o), on, off)
\* the number an n-bit word at variables t.. denotes
Word(m, k, msb, tc, t) ==
    LET Pos(j) == IF msb = 1 THEN k - 1 - j ELSE j         \* weight of variable t+j
    IN  FoldSet(LAMBDA j, s : s + Bit(m, t + j) * P2(Pos(j)) * (IF tc = 1 /\ Pos(j) = k - 1 THEN -1 ELSE 1), 0, 0..(k - 1))
SwapVal(f, b) == Map1(f, LAMBDA a : IF a = b THEN 0 ELSE IF a = 0 THEN b ELSE a)
Last1(x) == x[Len(x)]

AExact == {"load", "one", "zero", "var", "plus", "times", "threshold", "setNZ", "minus", "minimum", "maximum", "oneZeroMax", "diff", "agreement",
           "or", "nand", "nor", "xor", "xnor", "equals", "notEquals", "gt", "geq", "lt", "leqv", "divide", "pow", "mod", "logxy", "log", "negate",
           "cmpl", "roundOff", "scalarInverse", "ithBit", "bddThreshold", "bddStrict", "bddInterval", "bddPattern", "ite", "sumAbs", "prodAbs",
           "orAbs", "minAbs", "compose", "permute", "swapVars", "vecCompose", "genCompose", "matMul", "triangle", "outerSum", "xeqy", "hamming",
           "walsh", "residue", "cube", "cofactor"}

AValue(e, A, Z, reg) ==
    LET x == e.x n == NV(Z) IN
    CASE e.o = "load" -> x
      [] e.o = "one" -> Const(Z, 1)
      [] e.o = "zero" -> Const(Z, 0)
      [] e.o = "var" -> VarF(Z, x[1])
      [] e.o = "plus" -> Map2(A[1], A[2], Plus)
      [] e.o = "times" -> Map2(A[1], A[2], Mul)
      [] e.o = "threshold" -> Map2(A[1], A[2], LAMBDA a, b : IF a >= b THEN a ELSE 0)
      [] e.o = "setNZ" -> Map2(A[1], A[2], LAMBDA a, b : IF b # 0 THEN b ELSE a)
      [] e.o = "minus" -> Map2(A[1], A[2], LAMBDA a, b : Plus(a, -b))
      [] e.o = "minimum" -> Map2(A[1], A[2], Mn)
      [] e.o = "maximum" -> Map2(A[1], A[2], Mx)
      [] e.o = "oneZeroMax" -> Map2(A[1], A[2], LAMBDA a, b : B(a > b))
      [] e.o = "diff" -> Map2(A[1], A[2], LAMBDA a, b : IF a = b THEN INF ELSE Mn(a, b))
      [] e.o = "agreement" -> Map2(A[1], A[2], LAMBDA a, b : IF a = b THEN a ELSE x[1])
      [] e.o = "or" -> Map2(A[1], A[2], Mx)
      [] e.o = "nand" -> Map2(A[1], A[2], LAMBDA a, b : 1 - a * b)
      [] e.o = "nor" -> Map2(A[1], A[2], LAMBDA a, b : 1 - Mx(a, b))
      [] e.o = "xor" -> Map2(A[1], A[2], LAMBDA a, b : B(a # b))
      [] e.o = "xnor" -> Map2(A[1], A[2], LAMBDA a, b : B(a = b))
      [] e.o = "equals" -> Map2(A[1], A[2], LAMBDA a, b : B(a = b))
      [] e.o = "notEquals" -> Map2(A[1], A[2], LAMBDA a, b : B(a # b))
      [] e.o = "gt" -> Map2(A[1], A[2], LAMBDA a, b : B(a > b))
      [] e.o = "geq" -> Map2(A[1], A[2], LAMBDA a, b : B(a >= b))
      [] e.o = "lt" -> Map2(A[1], A[2], LAMBDA a, b : B(a < b))
      [] e.o = "leqv" -> Map2(A[1], A[2], LAMBDA a, b : B(a <= b))
      [] e.o = "divide" -> Map2(A[1], A[2], LAMBDA a, b : (120 * a * Sgn(b)) \div Abs(b))     \* times 120
      [] e.o = "pow" -> Map2(A[1], A[2], PowI)
      [] e.o = "mod" -> Map2(A[1], A[2], LAMBDA a, b : a % b)
      [] e.o = "logxy" -> Map2(A[1], A[2], LAMBDA a, b : (6 * Lg(a)) \div Lg(b))               \* times 6
      [] e.o = "log" -> Map1(A[1], LAMBDA a : LnTenK[a])                                       \* times 10000
      [] e.o = "negate" -> Map1(A[1], LAMBDA a : -a)
      [] e.o = "cmpl" -> Map1(A[1], LAMBDA a : B(a = 0))
      [] e.o = "roundOff" -> LET t == <<1, 10, 100>>[x[1] + 1] IN Map1(A[1], LAMBDA a : ((a * t + 4) \div 8) * (1000 \div t))
      [] e.o = "scalarInverse" -> Map1(A[1], LAMBDA a : Sgn(a) * (120 \div Abs(a)))            \* times 120
      [] e.o = "ithBit" -> Map1(A[1], LAMBDA a : (a \div P2(x[1])) % 2)
      [] e.o = "bddThreshold" -> Map1(A[1], LAMBDA a : B(a >= x[1]))
      [] e.o = "bddStrict" -> Map1(A[1], LAMBDA a : B(a > x[1]))
      [] e.o = "bddInterval" -> Map1(A[1], LAMBDA a : B(x[1] <= a /\ a <= x[2]))
      [] e.o = "bddPattern" -> Map1(A[1], LAMBDA a : B(a # 0))
      [] e.o = "ite" -> IteV(A[1], A[2], A[3])
      [] e.o = "sumAbs" -> AbsS(A[1], Vars(x[1]), Plus)
      [] e.o = "prodAbs" -> AbsS(A[1], Vars(x[1]), Mul)
      [] e.o = "orAbs" -> AbsS(A[1], Vars(x[1]), Mx)
      [] e.o = "minAbs" -> AbsS(A[1], Vars(x[1]), Mn)
      [] e.o = "compose" -> SubstF(A[1], [k \in 1..n |-> IF k - 1 = x[1] THEN A[2] ELSE VarF(Z, k - 1)])
      [] e.o = "permute" -> RenameF(A[1], x)
      [] e.o = "swapVars" -> RenameF(A[1], SwapP(n, x))
      [] e.o = "vecCompose" -> SubstF(A[1], [k \in 1..n |-> IF x[k] > 0 THEN reg[x[k]] ELSE VarF(Z, k - 1)])
      [] e.o = "genCompose" -> Gen(A[1], SubSeq(x, 2 * n + 1, 3 * n), [k \in 1..n |-> IF x[k] > 0 THEN reg[x[k]] ELSE VarF(Z, k - 1)],
                                   [k \in 1..n |-> IF x[k] > 0 THEN reg[x[n + k]] ELSE Neg(VarF(Z, k - 1))])
      [] e.o = "matMul" -> AbsS(Map2(A[1], A[2], Mul), Vars(x[1]), Plus)
      [] e.o = "triangle" -> AbsS(Map2(A[1], A[2], Plus), Vars(x[1]), Mn)
      [] e.o = "outerSum" -> TLCEval([k \in 1..Len(Z) |-> Mn(A[1][k], Plus(A[2][k], A[3][k]))])
      [] e.o = "xeqy" -> Vec(Z, LAMBDA m : B(\A j \in 1..(Len(x) \div 2) : Bit(m, Half(x, 0)[j]) = Bit(m, Half(x, 1)[j])))
      [] e.o = "hamming" -> Vec(Z, LAMBDA m : Cardinality({j \in 1..(Len(x) \div 2) : Bit(m, Half(x, 0)[j]) # Bit(m, Half(x, 1)[j])}))
      [] e.o = "walsh" -> Vec(Z, LAMBDA m : IF Cardinality({j \in 1..(Len(x) \div 2) : Bit(m, Half(x, 0)[j]) = 1 /\ Bit(m, Half(x, 1)[j]) = 1}) % 2 = 0 THEN 1 ELSE -1)
      [] e.o = "residue" -> Vec(Z, LAMBDA m : Word(m, x[1], x[3], x[4], x[5]) % x[2])
      [] e.o = "cube" -> CubeF(Z, Vars(x[1]), x[2])
      [] e.o = "cofactor" -> CofF(A[1], Vars(x[1]), x[2])

IsConst(f) == \A k \in 1..Len(f) : f[k] = f[1]
ARight(e, A, Z) ==
    LET x == e.x y == e.y n == NV(Z) r == IF Len(e.r) > 0 THEN e.r[1] ELSE Z IN
    CASE e.o \in {"constrain", "restrict"} -> Agree(r, A[1], A[2]) /\ (e.o = "constrain" => r = ConstrainF(A[1], A[2], x)) /\ (e.o = "restrict" => Supp(r) \subseteq Supp(A[1]))
      [] e.o = "isNull" -> y[1] = 1
      [] e.o = "findMax" -> y = <<Max({A[1][k] : k \in 1..Len(Z)}), Min({A[1][k] : k \in 1..Len(Z)})>>
      [] e.o = "iteConstant" -> LET v == IteV(A[1], A[2], A[3]) IN IF IsConst(v) THEN y = <<1, v[1]>> ELSE y = <<0>>
      [] e.o = "evalConst" -> LET S == {A[2][k] : k \in {j \in 1..Len(Z) : A[1][j] # 0}} IN
                              IF S = {} THEN y = <<1, IF IsConst(A[2]) THEN A[2][1] ELSE x[1]>>
                              ELSE IF Cardinality(S) = 1 THEN y = <<1, CHOOSE s \in S : TRUE>> ELSE y = <<0>>
      [] e.o = "leq" -> y[1] = B(\A k \in 1..Len(Z) : A[1][k] <= A[2][k])
      [] e.o = "supNorm" -> y[1] = B(\A k \in 1..Len(Z) : Abs(A[1][k] - A[2][k]) <= x[1])
      [] e.o = "addCount" -> LET o == SubSeq(x, 1, n) bg == Last1(x) IN
                             y = <<Cardinality({k \in 1..Len(Z) : A[1][k] # bg}), Cardinality({A[1][k] : k \in 1..Len(Z)}), AddSize({A[1]}, o),
                                   Paths(A[1], o, 0), Paths(A[1], o, 1)>>
      [] e.o = "addSupport" -> LET s == Supp(A[1]) IN y = <<MaskOf(s), Cardinality(s), MaskOf(s \cup Supp(A[2]))>>
      [] e.o = "addEval" -> y[1] = At(A[1], x[1])
      [] e.o = "addCubes" -> LET I == {j \in 1..Len(y) : j % 3 = 1} o == SubSeq(x, 1, n) bg == Last1(x) IN
                             /\ \A m \in Ms(Z) : LET C == {j \in I : \A i \in 0..(n - 1) : Bit(y[j + 1], i) = 1 \/ Bit(m, i) = Bit(y[j], i)} IN
                                    IF At(A[1], m) = bg THEN C = {} ELSE Cardinality(C) = 1 /\ \A j \in C : y[j + 2] = At(A[1], m)
                             /\ Cardinality(I) = Paths(SwapVal(A[1], bg), o, 1)
AKnown == {"constrain", "restrict", "isNull", "findMax", "iteConstant", "evalConst", "leq", "supNorm", "addCount", "addSupport", "addEval", "addCubes"}
Order == {"order"}
=============================================================================
