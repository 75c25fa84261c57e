------------------------------- MODULE BddOps -------------------------------
(* What each operation of the BDD package has to return.  An event e names *)
(* the operation e.o, its integer arguments e.x, the functions of its      *)
(* results e.r and its numeric results e.y; A holds the functions of its   *)
(* diagram arguments.                                                      *)
EXTENDS BoolFun

Even(s) == {j \in 1..Len(s) : j % 2 = 1}
Dxy(m, v, k, a, b) == LET x == SubSeq(v, a * k + 1, (a + 1) * k) y == SubSeq(v, b * k + 1, (b + 1) * k)
                      IN FoldSet(LAMBDA j, s : s + (IF Bit(m, x[j]) # Bit(m, y[j]) THEN P2(k - j) ELSE 0), 0, 1..k)
\* swap x[j] and x[h+j]
SwapPerm(n, x) == LET h == Len(x) \div 2
                  IN [k \in 1..n |-> IF \E j \in 1..h : x[j] = k - 1 THEN x[h + (CHOOSE j \in 1..h : x[j] = k - 1)]
                                     ELSE IF \E j \in 1..h : x[h + j] = k - 1 THEN x[CHOOSE j \in 1..h : x[h + j] = k - 1]
                                     ELSE k - 1]
AdjPerm(n, x) == LET T == 0..(Len(x) \div 3 - 1)
                 IN [k \in 1..n |-> IF \E t \in T : x[3*t+1] = k - 1 THEN x[3 * (CHOOSE t \in T : x[3*t+1] = k - 1) + 2]
                                    ELSE IF \E t \in T : x[3*t+2] = k - 1 THEN x[3 * (CHOOSE t \in T : x[3*t+2] = k - 1) + 1]
                                    ELSE k - 1]
Sel(j, A) == CASE j = 0 -> A[1] [] j = 1 -> Neg(A[1]) [] j = 2 -> A[2] [] j = 3 -> Neg(A[2]) [] j = 4 -> Const(A[1], 1) [] j = 5 -> Const(A[1], 0)
\* the literals two cubes have in common
Common(x) == {i \in Vars(x[1]) \cap Vars(x[3]) : Bit(x[2], i) = Bit(x[4], i)}

Exact == {"load", "one", "zero", "var", "not", "and", "or", "nand", "nor", "xor", "xnor", "ite", "iteSel", "andLimit", "orLimit", "xnorLimit",
          "iteLimit", "literals", "cube", "xgty", "xeqy", "dxygtdxz", "dxygtdyz", "inequality", "disequality", "interval",
          "exist", "univ", "existLimit", "univLimit", "andAbs", "andAbsLimit", "xorExist", "boolDiff", "cofactor", "compose",
          "vecCompose", "permute", "swapVars", "varMap", "adjPermute", "same", "supportCube", "vecSupportCube", "essential"}
Limited == {"andLimit", "orLimit", "xnorLimit", "iteLimit", "existLimit", "univLimit", "andAbsLimit"}
LimitOf(e) == e.x[Len(e.x)]

\* Z: a vector of the right width, reg: all registers
Value(e, A, Z, reg) ==
    LET x == e.x n == NV(Z) IN
    CASE e.o = "load" -> x
      [] e.o = "one" -> Const(Z, 1)
      [] e.o = "zero" -> Const(Z, 0)
      [] e.o = "var" -> VarF(Z, x[1])
      [] e.o = "not" -> Neg(A[1])
      [] e.o \in {"and", "andLimit"} -> AndF(A[1], A[2])
      [] e.o \in {"or", "orLimit"} -> OrF(A[1], A[2])
      [] e.o = "nand" -> Neg(AndF(A[1], A[2]))
      [] e.o = "nor" -> Neg(OrF(A[1], A[2]))
      [] e.o = "xor" -> XorF(A[1], A[2])
      [] e.o \in {"xnor", "xnorLimit"} -> Neg(XorF(A[1], A[2]))
      [] e.o \in {"ite", "iteLimit"} -> IteF(A[1], A[2], A[3])
      [] e.o = "iteSel" -> IteF(Sel(x[1], A), Sel(x[2], A), Sel(x[3], A))
      [] e.o = "literals" -> CubeF(Z, Common(x), x[2])
      [] e.o = "cube" -> CubeF(Z, Vars(x[1]), x[2])
      [] e.o = "xgty" -> LET k == x[1] v == SubSeq(x, 4, Len(x)) IN Vec(Z, LAMBDA m : B(Num(m, SubSeq(v, 1, k)) > Num(m, SubSeq(v, k + 1, 2 * k))))
      [] e.o = "xeqy" -> LET k == x[1] v == SubSeq(x, 4, Len(x)) IN Vec(Z, LAMBDA m : B(Num(m, SubSeq(v, 1, k)) = Num(m, SubSeq(v, k + 1, 2 * k))))
      [] e.o = "inequality" -> LET k == x[1] v == SubSeq(x, 4, Len(x)) IN Vec(Z, LAMBDA m : B(Num(m, SubSeq(v, 1, k)) - Num(m, SubSeq(v, k + 1, 2 * k)) >= x[2]))
      [] e.o = "disequality" -> LET k == x[1] v == SubSeq(x, 4, Len(x)) IN Vec(Z, LAMBDA m : B(Num(m, SubSeq(v, 1, k)) - Num(m, SubSeq(v, k + 1, 2 * k)) # x[2]))
      [] e.o = "interval" -> LET v == SubSeq(x, 4, Len(x)) IN Vec(Z, LAMBDA m : B(x[2] <= Num(m, v) /\ Num(m, v) <= x[3]))
      [] e.o = "dxygtdxz" -> LET k == x[1] v == SubSeq(x, 4, Len(x)) IN Vec(Z, LAMBDA m : B(Dxy(m, v, k, 0, 1) > Dxy(m, v, k, 0, 2)))
      [] e.o = "dxygtdyz" -> LET k == x[1] v == SubSeq(x, 4, Len(x)) IN Vec(Z, LAMBDA m : B(Dxy(m, v, k, 0, 1) > Dxy(m, v, k, 1, 2)))
      [] e.o \in {"exist", "existLimit"} -> ExistF(A[1], Vars(x[1]))
      [] e.o \in {"univ", "univLimit"} -> UnivF(A[1], Vars(x[1]))
      [] e.o \in {"andAbs", "andAbsLimit"} -> ExistF(AndF(A[1], A[2]), Vars(x[1]))
      [] e.o = "xorExist" -> ExistF(XorF(A[1], A[2]), Vars(x[1]))
      [] e.o = "boolDiff" -> XorF(Cof1(A[1], x[1], 0), Cof1(A[1], x[1], 1))
      [] e.o = "cofactor" -> CofF(A[1], Vars(x[1]), x[2])
      [] e.o = "compose" -> SubstF(A[1], [k \in 1..n |-> IF k - 1 = x[1] THEN A[2] ELSE VarF(Z, k - 1)])
      [] e.o = "vecCompose" -> SubstF(A[1], [k \in 1..n |-> IF x[k] > 0 THEN reg[x[k]] ELSE VarF(Z, k - 1)])
      [] e.o \in {"permute", "varMap"} -> RenameF(A[1], x)
      [] e.o = "swapVars" -> RenameF(A[1], SwapPerm(n, x))
      [] e.o = "adjPermute" -> RenameF(A[1], AdjPerm(n, x))
      [] e.o = "same" -> A[1]
      [] e.o = "supportCube" -> CubeF(Z, Supp(A[1]), 255)
      [] e.o = "vecSupportCube" -> CubeF(Z, Supp(A[1]) \cup Supp(A[2]), 255)
      [] e.o = "essential" -> LET ess == {<<i, b>> \in (0..(n-1)) \X {0, 1} : \A m \in On(A[1]) : Bit(m, i) = b}
                              IN IF On(A[1]) = {} THEN Z \* any cube: see Right
                                 ELSE Vec(Z, LAMBDA m : B(\A l \in ess : Bit(m, l[1]) = l[2]))

(* The operations whose result is only bounded, and the numeric ones. *)
CubeOn(on, dc, n) == {m \in 0..(P2(n) - 1) : \A i \in 0..(n - 1) : Bit(dc, i) = 1 \/ Bit(m, i) = Bit(on, i)}
CubeVec(Z, on, dc) == Vec(Z, LAMBDA m : B(\A i \in 0..(NV(Z) - 1) : Bit(dc, i) = 1 \/ Bit(m, i) = Bit(on, i)))
Clauses2(f) == \* one- and two-literal clauses over the support that f implies; literal <<var, negated>>
    LET L == {<<i, p>> \in Supp(f) \X {0, 1} : TRUE}
        Holds(l, m) == Bit(m, l[1]) # l[2]
        One == {l \in L : \A m \in On(f) : Holds(l, m)}
    IN  [one |-> One,
         two |-> {<<l, k>> \in L \X L : l[1] < k[1] /\ l \notin One /\ k \notin One /\ \A m \in On(f) : Holds(l, m) \/ Holds(k, m)}]

Right(e, A, Z) ==
    LET x == e.x y == e.y n == NV(Z) r == IF Len(e.r) > 0 THEN e.r[1] ELSE Z IN
    CASE e.o = "leq" -> y[1] = B(Implies(A[1], A[2]))
      [] e.o = "leqUnless" -> y[1] = B(\A k \in 1..Len(Z) : A[3][k] = 1 \/ A[1][k] <= A[2][k])
      [] e.o = "equivDC" -> y[1] = B(\A k \in 1..Len(Z) : A[3][k] = 1 \/ A[1][k] = A[2][k])
      [] e.o = "iteConstant" -> LET v == IteF(A[1], A[2], A[3]) IN IF \A k \in 1..Len(v) : v[k] = v[1] THEN y[1] = v[1] ELSE y[1] \in {2, 3}
      [] e.o = "intersect" -> LET v == AndF(A[1], A[2]) IN Implies(r, v) /\ (On(v) # {} => On(r) # {})
      [] e.o = "correlation" -> y[1] = Cardinality({k \in 1..Len(Z) : A[1][k] = A[2][k]})
      [] e.o = "correlationW" -> y[1] = FoldSet(LAMBDA k, s : s + (IF A[1][k] = A[2][k] THEN FoldSet(LAMBDA i, w : w * (IF Bit(k - 1, i) = 1 THEN x[i + 1] ELSE 2 - x[i + 1]), 1, 0..(n - 1)) ELSE 0), 0, 1..Len(Z))
      [] e.o = "varDependent" -> y[1] = B(\A m \in Ms(Z) : ~ (At(A[1], With(m, x[1], 0)) = 1 /\ At(A[1], With(m, x[1], 1)) = 1))
      [] e.o = "symmetric" -> y[1] = B(\A m \in Ms(Z) : Bit(m, x[1]) # Bit(m, x[2]) => At(A[1], m) = At(A[1], Flip(Flip(m, x[1]), x[2])))
      [] e.o = "checkCube" -> y[1] = B(IsCube(A[1]))
      [] e.o = "checkCubeNZ" -> ~ IsCube(A[1])
      [] e.o = "cubeOf" -> A[1] = CubeVec(Z, y[1], y[2])
      (* minimisation *)
      [] e.o = "constrain" -> Agree(r, A[1], A[2]) /\ (n <= 5 => r = ConstrainF(A[1], A[2], x))
      [] e.o = "restrict" -> Agree(r, A[1], A[2]) /\ Supp(r) \subseteq Supp(A[1]) /\ y[1] <= y[2]
      [] e.o = "minimize" -> Agree(r, A[1], A[2])
      [] e.o = "liCompact" -> Agree(r, A[1], A[2]) /\ y[1] <= y[2]
      [] e.o = "npAnd" -> Agree(r, A[1], A[2]) /\ r = NPAndF(A[1], A[2], x)
      [] e.o = "squeeze" -> Implies(A[1], r) /\ Implies(r, A[2])
      [] e.o = "interpolate" -> Implies(A[1], r) /\ Implies(r, A[2]) /\ (Implies(A[1], A[2]) => Supp(r) \subseteq Supp(A[1]) \cap Supp(A[2]))
      [] e.o = "subset" -> Implies(r, A[1])
      [] e.o = "subsetNonempty" -> Implies(r, A[1]) /\ On(r) # {}
      [] e.o = "superset" -> Implies(A[1], r)
      [] e.o = "clipAnd" -> LET v == AndF(A[1], A[2]) IN IF x[1] = 0 THEN Implies(r, v) ELSE Implies(v, r)
      [] e.o = "clipAndAbs" -> LET v == ExistF(AndF(A[1], A[2]), Vars(x[3])) IN IF x[1] = 0 THEN Implies(r, v) ELSE Implies(v, r)
      [] e.o = "conj" -> y[1] \in {1, 2} /\ Len(e.r) = y[1] /\ A[1] = (IF y[1] = 1 THEN e.r[1] ELSE AndF(e.r[1], e.r[2]))
      [] e.o = "disj" -> y[1] \in {1, 2} /\ Len(e.r) = y[1] /\ A[1] = (IF y[1] = 1 THEN e.r[1] ELSE OrF(e.r[1], e.r[2]))
      [] e.o = "charToVect" -> /\ Len(e.r) = n
                               /\ {FoldSet(LAMBDA l, s : s + P2(l - 1) * At(e.r[l], m), 0, 1..n) : m \in Ms(Z)} = On(A[1])
      [] e.o = "cProjection" -> LET Y == Vars(x[1]) IN
                                /\ Implies(r, A[1]) /\ ExistF(r, Y) = ExistF(A[1], Y)
                                /\ \A m \in On(r), k \in On(r) : (\A i \in 0..(n-1) : i \notin Y => Bit(m, i) = Bit(k, i)) => m = k
      [] e.o = "prioritySelect" -> LET k == x[1] v == Tail(x) X == {v[j] : j \in 1..k} Y == {v[j] : j \in (k+1)..(2*k)}
                                       xs == SubSeq(v, 1, k) ys == SubSeq(v, k + 1, 2 * k) IN
                                   /\ Implies(r, A[1])
                                   /\ \A m \in On(A[1]) : At(r, m) = B(\A h \in On(A[1]) : (\A i \in 0..(n-1) : i \notin Y => Bit(m, i) = Bit(h, i)) =>
                                          IF y[1] = 0 THEN TRUE ELSE Dxy(m, v, k, 0, 1) <= Dxy(h, v, k, 0, 1)) \/ y[1] = 0
                                   /\ (y[1] = 0 => ExistF(r, Y) = ExistF(A[1], Y)
                                        /\ \A m \in On(r), h \in On(r) : (\A i \in 0..(n-1) : i \notin Y => Bit(m, i) = Bit(h, i)) => m = h)
      [] e.o = "splitSet" -> Implies(r, A[1]) /\ Cardinality(On(r)) = x[1]
      [] e.o = "makePrime" -> IsPrime(r, A[1]) /\ At(r, x[1]) = 1
      [] e.o = "solve" -> /\ e.r[1] = UnivF(A[1], Vars(x[1])) /\ e.r[2] = e.r[1]
      (* counting and enumeration *)
      [] e.o = "countMinterm" -> \A j \in 1..Len(y) : y[j] = Cardinality(On(A[1]))
      [] e.o = "countPath" -> /\ y[1] = Paths(A[1], x, 0) /\ y[2] = Paths(A[1], x, 1)
                              /\ y[3] = BddSize({A[1]}, x) /\ y[4] = 1
      [] e.o = "dagSize" -> y[1] = BddSize({A[1]}, x) /\ y[2] = y[1]
      [] e.o = "sharingSize" -> y[1] = BddSize({A[1], A[2], A[3]}, x)
      [] e.o = "support" -> LET s == Supp(A[1]) IN y = <<MaskOf(s), MaskOf(s), Cardinality(s), Cardinality(s)>>
      [] e.o = "vecSupport" -> LET s == Supp(A[1]) \cup Supp(A[2]) IN y = <<MaskOf(s), MaskOf(s), Cardinality(s), Cardinality(s)>>
      [] e.o = "classify" -> LET s == Supp(A[1]) t == Supp(A[2]) IN
                             e.r = <<CubeF(Z, s \cap t, 255), CubeF(Z, s \ t, 255), CubeF(Z, t \ s, 255)>>
      [] e.o = "isEssential" -> On(A[1]) # {} => y[1] = B(\A m \in On(A[1]) : Bit(m, x[1]) = x[2])
      [] e.o = "twoLiteral" -> LET C == Clauses2(A[1])
                                   I == {j \in 1..Len(y) : j % 4 = 1}
                                   Lit(j) == <<y[j], y[j + 1]>>
                                   Got1 == {Lit(j) : j \in {k \in I : y[k + 2] = -1}}
                                   Got2 == {IF Lit(j)[1] < Lit(j + 2)[1] THEN <<Lit(j), Lit(j + 2)>> ELSE <<Lit(j + 2), Lit(j)>> : j \in {k \in I : y[k + 2] # -1}}
                               IN  Got1 = C.one /\ Got2 = C.two
      [] e.o = "eval" -> y[1] = At(A[1], x[1])
      [] e.o = "shortestPath" -> LET W(m) == FoldSet(LAMBDA i, s : s + x[i + 1] * Bit(m, i), 0, 0..(n - 1))
                                     best == Min({W(m) : m \in On(A[1])})
                                 IN  IsCube(r) /\ Implies(r, A[1]) /\ y = <<best, best>> /\ Min({W(m) : m \in On(r)}) = best
      [] e.o = "largestCube" -> IsCube(r) /\ Implies(r, A[1]) /\ y[1] = Cardinality(Supp(r)) /\ (y[2] = 1 => y[1] = MinPath(A[1], x))
      [] e.o = "unate" -> /\ y[1] = B(\A m \in Ms(Z) : Bit(m, x[1]) = 0 => At(A[1], m) >= At(A[1], Flip(m, x[1])))
                          /\ y[2] = B(\A m \in Ms(Z) : Bit(m, x[1]) = 0 => At(A[1], m) <= At(A[1], Flip(m, x[1])))
      [] e.o = "cofMinterm" -> /\ \A i \in 0..(n - 1) : y[i + 1] = 2 * Cardinality({m \in On(A[1]) : Bit(m, i) = 1})
                               /\ y[n + 1] = Cardinality(On(A[1]))
      [] e.o = "cubes" -> LET I == {j \in 1..Len(y) : j % 3 = 1} IN
                          /\ \A m \in Ms(Z) : Cardinality({j \in I : m \in CubeOn(y[j], y[j + 1], n)}) = At(A[1], m)
                          /\ \A j \in I : y[j + 2] = 1
                          /\ Cardinality(I) = Paths(A[1], x, 1)
      [] e.o = "primes" -> LET I == {j \in 1..Len(y) : j % 2 = 1}
                               C == {CubeVec(Z, y[j], y[j + 1]) : j \in I}
                           IN  /\ \A c \in C : IsPrime(c, A[2])
                               /\ \A m \in On(A[1]) : \E c \in C : At(c, m) = 1
      [] e.o = "pickCube" -> y[1] = 1 /\ Implies(CubeVec(Z, y[2], y[3]), A[1])
      [] e.o = "pickMinterm" -> Cardinality(On(r)) = 1 /\ Implies(r, A[1])
      [] e.o = "pickMinterms" -> /\ Len(e.r) = x[1] /\ \A j \in 1..Len(e.r) : Cardinality(On(e.r[j])) = 1 /\ Implies(e.r[j], A[1])
                                 /\ Cardinality({e.r[j] : j \in 1..Len(e.r)}) = x[1]
      [] e.o = "hamming" -> y[1] = Min({x[2]} \cup {Dist(m, x[1]) : m \in On(A[1])})
      [] e.o = "closestCube" -> LET d == Min({Dist(m, k) : m \in On(A[1]), k \in On(A[2])}) IN
                                /\ y[1] = d /\ IsCube(r) /\ Implies(r, A[1])
                                /\ \A m \in On(r) : Min({Dist(m, k) : k \in On(A[2])}) = d
      [] e.o = "isVar" -> y[1] = B(\E i \in 0..(n - 1) : A[1] = VarF(Z, i))
      [] e.o = "zeroRef" -> y[1] = 0
      [] e.o = "check" -> y[1] = 1
      [] e.o = "order" -> y = x
Known == {"leq", "leqUnless", "equivDC", "iteConstant", "intersect", "correlation", "correlationW", "varDependent", "symmetric", "checkCube",
          "checkCubeNZ", "cubeOf", "constrain", "restrict", "minimize", "liCompact", "npAnd", "squeeze", "interpolate", "subset",
          "subsetNonempty", "superset", "clipAnd", "clipAndAbs", "conj", "disj", "charToVect", "cProjection", "prioritySelect", "splitSet",
          "makePrime", "solve", "countMinterm", "countPath", "dagSize", "sharingSize", "support", "vecSupport", "classify", "isEssential",
          "twoLiteral", "eval", "shortestPath", "largestCube", "unate", "cofMinterm", "cubes", "primes", "pickCube", "pickMinterm",
          "pickMinterms", "hamming", "closestCube", "isVar", "zeroRef", "check", "order"}
=============================================================================
