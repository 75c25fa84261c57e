------------------------------ MODULE IntAdts ------------------------------
(***************************************************************************)
(* The integer data structures of the planner as abstract data types:      *)
(* contents and, per operation e, the next contents (After) and what the   *)
(* operation may return and show (Returns, Shows).                         *)
(*                                                                         *)
(*   heap     a bag of <<key, value>>; the top is one of least key         *)
(*   fringe   nodes by number with <<f, h2, h3, ..>>; pop: a least one     *)
(*   flex, stack   a sequence                                              *)
(*   bint, bucket, nodel, deliter   a set (with ord: iterates ascending)   *)
(*   trie, seqtrie   per slot of the hash table a map from keys to payload *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == { s[k] : k \in DOMAIN s }
Asc(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
AscStrict(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Once(s) == Cardinality(Rng(s)) = Len(s)
Occ(s, v) == Cardinality({ k \in DOMAIN s : s[k] = v })
Perm(s, t) == Len(s) = Len(t) /\ \A v \in Rng(s) : Occ(s, v) = Occ(t, v)
SetKinds == {"bint", "bucket", "nodel", "deliter"}
StackKinds == {"flex", "stack"}

\* ---- bags
Count(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
Plus(b, x)  == (x :> Count(b, x) + 1) @@ b
Less(b, x)  == IF Count(b, x) = 1 THEN [y \in DOMAIN b \ {x} |-> b[y]] ELSE [b EXCEPT ![x] = @ - 1]
RECURSIVE Sum(_, _)
Sum(b, S)   == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN b[x] + Sum(b, S \ {x})
Size(b)     == Sum(b, DOMAIN b)
LeastKey(b, k) == \A x \in DOMAIN b : k <= x[1]

\* ---- the open list: f and, to break ties, the further heuristics
FVal(p, a)  == LET g == <<0, a[p[3] + 1], a[p[3] + 2], a[p[3] + 3]>> IN a[1] * p[2] + g[p[1] + 1]
Prio(p, a)  == <<FVal(p, a)>> \o SubSeq(a, 2, p[3])
LexLeq(s, t) == \/ s = t
                \/ \E k \in 1..Len(s) : s[k] < t[k] /\ \A j \in 1..(k - 1) : s[j] = t[j]

New(kind) == IF kind \in SetKinds THEN [s |-> {}, ord |-> TRUE]
             ELSE IF kind \in StackKinds THEN <<>> ELSE <<>>      \* the empty function and the empty sequence are the same

\* the elements an iteration visits that erases those of D when it is at them: all
\* the first q elements of a set of integers, in ascending order
Nth(S, k) == CHOOSE x \in S : Cardinality({ y \in S : y < x }) = k - 1
TakeRes(S, q) == [k \in 1..q |-> IF k <= Cardinality(S) THEN Nth(S, k) ELSE -1]

After(kind, p, c, e) ==
  CASE kind = "heap" ->
         (CASE e.o = "add" -> Plus(c, <<e.a[1], e.a[2]>>) [] e.o = "pop" -> (IF <<e.r[1], e.r[2]>> \in DOMAIN c THEN Less(c, <<e.r[1], e.r[2]>>) ELSE c) [] e.o = "clear" -> <<>>)
    [] kind = "fringe" ->
         (CASE e.o = "push" -> (e.y :> Prio(p, e.a)) @@ c [] e.o = "pop" -> [i \in DOMAIN c \ {e.r[1]} |-> c[i]])
    [] kind \in StackKinds ->
         (CASE e.o = "push" -> Append(c, e.a[1]) [] e.o = "pop" -> (IF c = <<>> THEN c ELSE SubSeq(c, 1, Len(c) - 1)) [] e.o = "clear" -> <<>>)
    [] kind \in SetKinds ->
         (CASE e.o = "insert" -> [s |-> c.s \cup {e.a[1]}, ord |-> IF kind = "bint" THEN c.ord \/ e.a[1] \notin c.s ELSE kind = "bucket"]
            [] e.o = "append" -> [s |-> c.s \cup {e.a[1]}, ord |-> c.ord /\ e.a[1] \in c.s]
            [] e.o = "erase"  -> [c EXCEPT !.s = @ \ {e.a[1]}]
            [] e.o = "sort"   -> [c EXCEPT !.ord = TRUE]
            [] e.o = "clear"  -> [s |-> {}, ord |-> TRUE]
            [] e.o = "take"   -> [c EXCEPT !.s = @ \ Rng(TakeRes(c.s, e.y))]
            [] e.o = "drop"   -> [c EXCEPT !.s = @ \ Rng(e.a)])

Returns(kind, p, c, e) ==
  CASE e.o = "pop" /\ kind = "heap"   -> <<e.r[1], e.r[2]>> \in DOMAIN c /\ LeastKey(c, e.r[1])
    [] e.o = "pop" /\ kind = "fringe" -> e.r[1] \in DOMAIN c /\ \A i \in DOMAIN c : LexLeq(c[e.r[1]], c[i])
    [] e.o = "push" /\ kind = "fringe" -> e.r[1] = FVal(p, e.a)
    [] e.o = "pop" /\ kind \in StackKinds -> e.r[1] = IF c = <<>> THEN -1 ELSE c[Len(c)]
    [] e.o = "take" -> e.r = TakeRes(c.s, e.y)
    [] e.o = "drop" -> Rng(e.r) = c.s /\ Once(e.r)
    [] OTHER -> TRUE

\* what the structure shows afterwards
Shows(kind, c, e) ==
  CASE kind = "heap" -> /\ e.s = Size(c) /\ (e.e = 1) = (Size(c) = 0)
                        /\ IF Size(c) = 0 THEN e.i = <<>> ELSE <<e.i[1], e.i[2]>> \in DOMAIN c /\ LeastKey(c, e.i[1])
    [] kind = "fringe" -> e.s = Cardinality(DOMAIN c) /\ (e.e = 1) = (DOMAIN c = {})
    [] kind \in StackKinds -> e.i = c /\ e.s = Len(c) /\ (e.e = 1) = (c = <<>>)
    [] kind \in SetKinds -> /\ Rng(e.m) = c.s /\ Rng(e.i) = c.s /\ Once(e.i) /\ e.s = Cardinality(c.s) /\ (e.e = 1) = (c.s = {})
                            /\ (kind \in {"bint", "bucket", "nodel"} /\ c.ord) => AscStrict(e.i)

\* set algebra: the contents of the object the operation fills
Algebra(o, a, b) == CASE o = "clone" -> a [] o = "union" -> a \cup b [] o = "inter" -> a \cap b [] o = "minus" -> a \ b

\* functions on arrays
Arrays(e) ==
  CASE e.o = "sort"     -> Asc(e.r) /\ Perm(e.a, e.r)
    [] e.o = "makeSet"  -> /\ e.s = Cardinality(Rng(e.a)) /\ Rng(SubSeq(e.r, 1, e.s)) = Rng(e.a) /\ AscStrict(SubSeq(e.r, 1, e.s))
                           /\ Len(e.r) = Len(e.a) /\ \A k \in (e.s + 1)..Len(e.r) : e.r[k] = -1
    [] e.o = "indexOf"  -> IF e.y \in Rng(e.a) THEN e.s + 1 \in DOMAIN e.a /\ e.a[e.s + 1] = e.y ELSE e.s = -1
    [] e.o = "contains" -> (e.s = 1) = (e.y \in Rng(e.a))
    [] e.o = "copyExcluding" -> e.r = SelectSeq(e.a, LAMBDA v : v # e.y)
    [] e.o = "isSorted" -> (e.s = 1) = Asc(e.a)
=============================================================================
