----------------------------- MODULE TrieModel -----------------------------
(***************************************************************************)
(* The compressed trie as an algorithm on bit strings: a tree of labelled  *)
(* nodes, split where an inserted key leaves a label.  The tree is a       *)
(* function from positions (the concatenated labels up to and including    *)
(* the node's) to <<payload, start>>, start being the length of the path   *)
(* before the node.  It must implement a map (Refines), never hold two     *)
(* children with the same first bit (Branches) and need no more than two   *)
(* nodes per key (Small).  Behaviours are all orders in which up to MaxIns *)
(* keys of at most MaxLen bits are inserted; with DUMP they are printed    *)
(* for replay on the real tries.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
MaxLen == 3
MaxIns == 4
Keys == UNION { [1..k -> {0, 1}] : k \in 1..MaxLen }
Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
Common(a, b) == CHOOSE k \in 0..Len(a) : /\ k <= Len(b) /\ \A j \in 1..k : a[j] = b[j]
                                         /\ (k = Len(a) \/ k = Len(b) \/ a[k + 1] # b[k + 1])

VARIABLES tree,    \* position |-> <<payload, start>>
          map,     \* the abstract map
          hist
vars == <<tree, map, hist>>

\* nodes on the path of key, the deepest one whose position is a prefix of it, and the one it leaves inside
Inside(t, key) == { p \in DOMAIN t : /\ ~Prefix(p, key)
                                     /\ Prefix(SubSeq(p, 1, t[p][2]), key) /\ Common(p, key) > t[p][2] }
\* the root's label may be left at its very start
RootLeft(t, key) == { p \in DOMAIN t : t[p][2] = 0 /\ Common(p, key) = 0 /\ p # <<>> }

Insert(t, key, pay) ==
  IF t = <<>> THEN key :> <<pay, 0>>
  ELSE IF key \in DOMAIN t THEN [t EXCEPT ![key][1] = pay]
  ELSE LET cut == Inside(t, key) \cup (IF <<>> \in DOMAIN t THEN {} ELSE RootLeft(t, key)) IN
       IF cut = {}     \* a new child below the last node of the path
       THEN LET above == { p \in DOMAIN t : Prefix(p, key) }
                top == CHOOSE p \in above : \A q \in above : Len(q) <= Len(p)
            IN (key :> <<pay, Len(top)>>) @@ t
       ELSE LET p == CHOOSE p \in cut : TRUE
                c == Common(p, key)
                split == [t EXCEPT ![p][2] = c]
                head == SubSeq(p, 1, c)
            IN IF c = Len(key) THEN (key :> <<pay, t[p][2]>>) @@ split
               ELSE (key :> <<pay, c>>) @@ (head :> <<0, t[p][2]>>) @@ split

Init == tree = <<>> /\ map = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxIns
        /\ \E key \in Keys :
             /\ \A k \in DOMAIN hist : hist[k] # key
             /\ tree' = Insert(tree, key, Len(hist) + 1)
             /\ map' = (key :> Len(hist) + 1) @@ map
             /\ hist' = Append(hist, key)
Spec == Init /\ [][Next]_vars

Lookup(t, key) == IF key \in DOMAIN t THEN t[key][1] ELSE 0
Refines == \A key \in Keys : Lookup(tree, key) = IF key \in DOMAIN map THEN map[key] ELSE 0
Parent(p) == SubSeq(p, 1, tree[p][2])
Branches == \A p, q \in DOMAIN tree \ {<<>>} : p # q /\ tree[p][2] = tree[q][2] /\ Parent(p) = Parent(q) => p[tree[p][2] + 1] # q[tree[q][2] + 1]
Linked == \A p \in DOMAIN tree : (tree[p][2] > 0 => Parent(p) \in DOMAIN tree) /\ (p = <<>> \/ tree[p][2] < Len(p))
Small == Cardinality(DOMAIN tree) <= 2 * Cardinality(DOMAIN map)
Dump == Len(hist) < MaxIns \/ IOEnv.DUMP # "1" \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
