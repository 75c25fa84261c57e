----------------------------- MODULE WideTrace -----------------------------
(* The register machine of BddTrace over many variables.  A register holds *)
(* a function known by its values at the points of the history's first     *)
(* event and, where it is one, by its chain: f := f op x, from the         *)
(* constant one on.  What is asked about a chain (its number of models and *)
(* of paths, its support, its values after substitution and abstraction)   *)
(* follows from the chain alone.                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC, Json, IOUtils
Log == JsonDeserialize(IOEnv.TRACE)

VARIABLES k, l, reg, id, ch, lev, bad
vars == <<k, l, reg, id, ch, lev, bad>>
E == Log[k][l]
N == Log[k][1].y[1]
Pts == TLCEval([q \in DOMAIN Log[k][1].r |-> ToSet(Log[k][1].r[q])])
B(b) == IF b THEN 1 ELSE 0

\* ---- chains: <<op, variable, op, variable, ...>>
Step(f, o, x) == CASE o = 1 -> f /\ x [] o = 2 -> f \/ x [] o = 3 -> f # x [] o = 4 -> f /\ ~x [] o = 5 -> f \/ ~x [] OTHER -> ~f
Gates(c) == [j \in 1..(Len(c) \div 2) |-> <<c[2 * j - 1], c[2 * j]>>]
Val(c, T) == FoldLeft(LAMBDA f, g : Step(f, g[1], g[2] \in T), TRUE, Gates(c))
Vec(Op(_)) == TLCEval([q \in DOMAIN Pts |-> B(Op(Pts[q]))])
\* the values of c under all assignments of the variables in v, the rest as in T
Some(v, T, P(_)) == \E S \in SUBSET ToSet(v) : P((T \ ToSet(v)) \cup S)
Every(v, T, P(_)) == \A S \in SUBSET ToSet(v) : P((T \ ToSet(v)) \cup S)
Cof(x) == [on |-> {x[j] : j \in {j \in DOMAIN x : j % 2 = 1 /\ x[j + 1] = 1}}, off |-> {x[j] : j \in {j \in DOMAIN x : j % 2 = 1 /\ x[j + 1] = 0}}]
Renamed(c, m) == [j \in DOMAIN c |-> IF j % 2 = 1 \/ c[j - 1] = 6 THEN c[j] ELSE m[c[j] + 1]]
Compare(v, T) == LET D == {j \in 1..(Len(v) \div 2) : (v[2 * j - 1] \in T) # (v[2 * j] \in T)} IN IF D = {} THEN 0 ELSE IF v[2 * Min(D) - 1] \in T THEN 1 ELSE -1

\* ---- the support: const, its value, the variables
Support(c) == LET S(s, g) == LET o == g[1] x == g[2] IN
    CASE o = 6 -> [s EXCEPT !.v = ~@]
      [] s.c /\ o \in {1, 4} -> IF s.v THEN [c |-> FALSE, v |-> TRUE, s |-> {x}] ELSE s
      [] s.c /\ o \in {2, 5} -> IF s.v THEN s ELSE [c |-> FALSE, v |-> TRUE, s |-> {x}]
      [] OTHER -> [c |-> FALSE, v |-> TRUE, s |-> s.s \cup {x}]
  IN FoldLeft(S, [c |-> TRUE, v |-> TRUE, s |-> {}], Gates(c)).s
Vars(c) == {c[j] : j \in {j \in DOMAIN c : j % 2 = 0 /\ c[j - 1] # 6}}
Sorted(c) == LET G == SelectSeq(Gates(c), LAMBDA g : g[1] # 6) IN \A j \in 2..Len(G) : lev[G[j - 1][2] + 1] > lev[G[j][2] + 1]

\* ---- numbers as limbs in base 10000, least significant first
RECURSIVE Plus(_, _, _, _)
Plus(a, b, j, carry) == IF j > Len(a) /\ j > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
    ELSE LET s == (IF j <= Len(a) THEN a[j] ELSE 0) + (IF j <= Len(b) THEN b[j] ELSE 0) + carry IN <<s % 10000>> \o Plus(a, b, j + 1, s \div 10000)
Add(a, b) == Plus(a, b, 1, 0)
Double(a, bit) == Plus(a, a, 1, bit)
Limbs(bits) == FoldRight(LAMBDA b, a : Double(a, b), bits, <<>>)   \* bits, least significant first
Zeros(n) == [j \in 1..n |-> 0]
\* the models of the chain over the variables seen so far: all of them, or a number of as many bits
Models(c) == LET S(s, g) == LET o == g[1] n == Len(s.b) IN
    CASE o = 6 -> IF s.all THEN [all |-> FALSE, b |-> Zeros(n)] ELSE IF \A j \in 1..n : s.b[j] = 0 THEN [all |-> TRUE, b |-> s.b]
                  ELSE LET low == Min({j \in 1..n : s.b[j] = 1}) IN [all |-> FALSE, b |-> [j \in 1..n |-> IF j <= low THEN s.b[j] ELSE 1 - s.b[j]]]
      [] o \in {1, 4} -> IF s.all THEN [all |-> FALSE, b |-> Zeros(n) \o <<1>>] ELSE [all |-> FALSE, b |-> s.b \o <<0>>]
      [] o \in {2, 5} -> IF s.all THEN [all |-> TRUE, b |-> s.b \o <<0>>] ELSE [all |-> FALSE, b |-> s.b \o <<1>>]
      [] o = 3 -> [all |-> FALSE, b |-> Zeros(n) \o <<1>>]
  IN LET r == FoldLeft(S, [all |-> TRUE, b |-> <<>>], Gates(c)) IN IF r.all THEN Zeros(Len(r.b)) \o <<1>> ELSE r.b
Count(c, m) == Zeros(m - Cardinality(Vars(c))) \o Models(c)
\* paths to one and to zero of a chain along the order
Paths(c) == LET S(s, g) == LET o == g[1] IN
    CASE o = 6 -> <<s[2], s[1]>>
      [] o \in {1, 4} -> IF s[1] = <<>> THEN s ELSE <<s[1], Add(s[2], <<1>>)>>
      [] o \in {2, 5} -> IF s[2] = <<>> THEN s ELSE <<Add(s[1], <<1>>), s[2]>>
      [] o = 3 -> <<Add(s[1], s[2]), Add(s[1], s[2])>>
  IN FoldLeft(S, <<<<1>>, <<>>>>, Gates(c))
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, j) == j = 0 \/ a[j] < b[j] \/ (a[j] = b[j] /\ LeqFrom(a, b, j - 1))
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LeqFrom(a, b, Len(a)))
Power(n) == Limbs(Zeros(n) \o <<1>>)
\* computed in floating point, with complements taken: correct up to a tiny fraction of 2^m
Close(a, b, m) == LET t == IF m < 45 THEN <<>> ELSE Power(m - 45) IN Leq(a, Add(b, t)) /\ Leq(b, Add(a, t))
Digits(x) == IF x < 10 THEN 1 ELSE IF x < 100 THEN 2 ELSE IF x < 1000 THEN 3 ELSE 4
Pow10 == <<10, 100, 1000, 10000>>
\* mantissa * 10^7 and decimal exponent
Float(a) == IF a = <<>> THEN <<0, 0>> ELSE
  LET n == Len(a) d == Digits(a[n]) at(j) == IF j < 1 THEN 0 ELSE a[j]
  IN <<((a[n] * 10000 + at(n - 1)) * (10000 \div Pow10[d])) + at(n - 2) \div Pow10[d], 4 * (n - 1) + d - 1>>
Nibbles(bits) == LET n == (Len(bits) + 3) \div 4 at(j) == IF j > Len(bits) THEN 0 ELSE bits[j] IN [j \in 1..n |-> at(4 * j - 3) + 2 * at(4 * j - 2) + 4 * at(4 * j - 1) + 8 * at(4 * j)]
Trim(s) == LET D == {j \in DOMAIN s : s[j] # 0} IN IF D = {} THEN <<>> ELSE SubSeq(s, 1, Max(D))

Housekeeping == {"gc", "reorder", "shuffle"}
Arg(j) == reg[E.a[j]]
C(j) == ch[E.a[j]]
Point(Op(_, _)) == [q \in DOMAIN Pts |-> Op(Arg(1)[q], Arg(2)[q])]
Below(f, g) == \A q \in DOMAIN f : f[q] <= g[q]
Abs(x) == IF x < 0 THEN -x ELSE x

\* the values of an operation's result, where they are determined
Value == CASE E.o = "chain" -> Vec(LAMBDA T : Val(E.x, T))
  [] E.o = "again" -> Arg(1)
  [] E.o = "not" -> [q \in DOMAIN Pts |-> 1 - Arg(1)[q]]
  [] E.o = "and" -> Point(LAMBDA a, b : a * b)
  [] E.o = "or" -> Point(LAMBDA a, b : B(a + b > 0))
  [] E.o = "nand" -> Point(LAMBDA a, b : 1 - a * b)
  [] E.o = "nor" -> Point(LAMBDA a, b : B(a + b = 0))
  [] E.o = "xor" -> Point(LAMBDA a, b : B(a # b))
  [] E.o = "xnor" -> Point(LAMBDA a, b : B(a = b))
  [] E.o = "ite" -> [q \in DOMAIN Pts |-> IF Arg(1)[q] = 1 THEN Arg(2)[q] ELSE Arg(3)[q]]
  [] E.o = "exist" -> Vec(LAMBDA T : Some(E.x, T, LAMBDA U : Val(C(1), U)))
  [] E.o = "univ" -> Vec(LAMBDA T : Every(E.x, T, LAMBDA U : Val(C(1), U)))
  [] E.o = "andAbs" -> Vec(LAMBDA T : Some(E.x, T, LAMBDA U : Val(C(1), U) /\ Val(C(2), U)))
  [] E.o = "xorAbs" -> Vec(LAMBDA T : Some(E.x, T, LAMBDA U : Val(C(1), U) # Val(C(2), U)))
  [] E.o = "cofactor" -> LET x == Cof(E.x) IN Vec(LAMBDA T : Val(C(1), (T \ x.off) \cup x.on))
  [] E.o = "compose" -> Vec(LAMBDA T : Val(C(1), IF Val(C(2), T) THEN T \cup {E.x[1]} ELSE T \ {E.x[1]}))
  [] E.o = "boolDiff" -> Vec(LAMBDA T : Val(C(1), T \cup {E.x[1]}) # Val(C(1), T \ {E.x[1]}))
  [] E.o = "permute" -> LET r == Renamed(C(1), E.x) IN Vec(LAMBDA T : Val(r, T))
  [] E.o = "xeqy" -> Vec(LAMBDA T : Compare(E.x, T) = 0)
  [] E.o = "xgty" -> Vec(LAMBDA T : Compare(E.x, T) = 1)
Chain == CASE E.o = "chain" -> E.x [] E.o = "permute" -> Renamed(C(1), E.x) [] OTHER -> <<>>
Loose == {"sub", "sup", "care", "between"}
Bounded == CASE E.o = "sub" -> Below(E.r[1], Arg(1))
  [] E.o = "sup" -> Below(Arg(1), E.r[1])
  [] E.o = "between" -> Below(Arg(1), E.r[1]) /\ Below(E.r[1], Arg(2))
  [] E.o = "care" -> \A q \in DOMAIN Pts : Arg(2)[q] = 1 => E.r[1][q] = Arg(1)[q]
Valued == {"chain", "again", "not", "and", "or", "nand", "nor", "xor", "xnor", "ite", "exist", "univ", "andAbs", "xorAbs", "cofactor", "compose", "boolDiff", "permute", "xeqy", "xgty"}

\* equal nodes are equal functions, and chains given alike are the same node
Canonical == /\ \A q \in DOMAIN reg : id[q] = E.i => reg[q] = E.r[1]
             /\ E.o = "again" => id[E.a[1]] = E.i
             /\ E.o = "chain" => \A q \in DOMAIN reg : ch[q] = E.x => id[q] = E.i
             /\ \A q \in DOMAIN reg : reg[q] # E.r[1] => id[q] # E.i

Fact == CASE E.o = "zeroRef" -> E.y = <<0>>
  [] E.o \in {"stored", "loaded"} -> E.y = <<1>>
  [] E.o = "eval" -> E.r[1] = Arg(1)
  [] E.o = "leq" -> /\ E.y[1] = 1 /\ (E.y[2] = 1 <=> E.y[3] = 1) /\ (E.y[2] = 1 => Below(Arg(1), Arg(2)))
  [] E.o = "count" -> E.y = Limbs(Count(C(1), E.x[1]))
  [] E.o = "hex" -> Trim(E.y) = Trim(Nibbles(Count(C(1), E.x[1])))
  [] E.o = "near" -> Close(E.y, Limbs(Count(C(1), E.x[1])), E.x[1])
  [] E.o = "float" -> LET m == E.x[1] c == Limbs(Count(C(1), m)) IN (m > 20 /\ Leq(Power(m - 20), c)) => LET f == Float(c) IN E.y[2] = f[2] /\ Abs(E.y[1] - f[1]) <= 20
  [] E.o = "paths" -> Sorted(C(1)) => Close(E.y, Paths(C(1))[1], N)
  [] E.o = "allpaths" -> Sorted(C(1)) => Close(E.y, Add(Paths(C(1))[1], Paths(C(1))[2]), N)
  [] E.o = "size" -> /\ Sorted(C(1)) => E.y[1] = Cardinality(Support(C(1))) + 1
                     /\ E.y[1] > Cardinality(Support(C(1))) /\ E.y[2] = 1
  [] E.o = "support" -> E.y = SetToSortSeq(UNION {Support(C(j)) : j \in DOMAIN E.a}, <)
  [] E.o = "supportSize" -> E.y[1] = Cardinality(Support(C(1)))
  [] E.o = "classify" -> LET f == Support(C(1)) g == Support(C(2)) IN [j \in 1..3 |-> ToSet(E.r[j])] = <<f \cap g, f \ g, g \ f>>
  [] E.o = "cube" -> LET one == {j - 1 : j \in {j \in DOMAIN E.y : E.y[j] = 1}} free == {j - 1 : j \in {j \in DOMAIN E.y : E.y[j] = 2}}
                     IN Len(E.y) = N /\ (E.x[1] = 2 => free = {}) /\ Val(C(1), one) /\ Val(C(1), one \cup free) /\ \A q \in DOMAIN Pts : Val(C(1), one \cup (free \cap Pts[q]))

Verdict ==
    IF E.o \in Housekeeping THEN IF E.r # reg THEN "a register changed" ELSE IF E.a # id THEN "a node moved" ELSE IF E.y # <<1>> THEN "inconsistent manager"
                                 ELSE IF E.o = "gc" /\ E.x # lev THEN "the order changed" ELSE ""
    ELSE IF E.o \in Valued \cup Loose
         THEN IF E.r = <<>> THEN "no result" ELSE IF E.o \in Valued /\ E.r[1] # Value THEN "wrong function" ELSE IF E.o \in Loose /\ ~Bounded THEN "out of bounds"
              ELSE IF ~Canonical THEN "not canonical" ELSE ""
    ELSE IF Fact THEN "" ELSE "wrong answer"

Init == /\ k \in 1..Len(Log) /\ l = 2 /\ bad = <<>>
        /\ id = Log[k][1].a /\ reg = [q \in DOMAIN id |-> [p \in DOMAIN Log[k][1].r |-> 1]] /\ ch = [q \in DOMAIN id |-> <<>>] /\ lev = Log[k][1].x
Next == /\ l <= Len(Log[k]) /\ bad = <<>>
        /\ l' = l + 1 /\ k' = k
        /\ LET v == Verdict IN bad' = IF v = "" THEN <<>> ELSE <<k, l, E.o, v>>
        /\ lev' = IF E.o \in Housekeeping THEN E.x ELSE lev
        /\ IF E.d > 0 /\ E.r # <<>>
           THEN reg' = [reg EXCEPT ![E.d] = E.r[1]] /\ id' = [id EXCEPT ![E.d] = E.i] /\ ch' = [ch EXCEPT ![E.d] = Chain]
           ELSE UNCHANGED <<reg, id, ch>>
Spec == Init /\ [][Next]_vars
Fine == bad = <<>>
=============================================================================
