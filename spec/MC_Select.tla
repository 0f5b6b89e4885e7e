------------------------------- MODULE MC_Select -------------------------------
(* Exhaustive: all trees of up to N words, and all pairs of trees of up to M   *)
(* words, with one of two values each.                                         *)
EXTENDS Select, Json, TLC
CONSTANTS N, M, Emit
VARIABLES m, v, w

Word(k, h, f) == [k |-> k, h |-> h, f |-> f, l |-> "l", u |-> IF f = "a" THEN "NOUN" ELSE "X", d |-> "dep", mi |-> <<>>]
Init == m \in {"tree", "pair"} /\ v = <<>> /\ w = <<>>
\* Heads may be words which do not exist yet
More(x, size) == {Append(x, Word(Len(x) + 1, h, f)) : h \in (0..size) \ {Len(x) + 1}, f \in {"a", "b"}}
IsTree(x) == LET up(p) == IF p = 0 THEN 0 ELSE x[p].h IN
             /\ \A p \in 1..Len(x) : x[p].h <= Len(x)
             /\ \A p \in 1..Len(x) : FoldLeft(LAMBDA a, z : up(a), p, [z \in 1..Len(x) |-> z]) = 0
Next == /\ UNCHANGED m
        /\ IF m = "tree" THEN Len(w) < N /\ w' \in More(w, N) /\ v' = v
           ELSE \/ (Len(w) < M /\ w' \in More(w, M) /\ v' = v)
                \/ (Len(v) < M /\ Len(w) <= M /\ v' \in More(v, M) /\ w' = w)
Spec == Init /\ [][Next]_<<m, v, w>>
Ok == IsTree(v) /\ IsTree(w)
None == [t |-> "", v |-> ""]
P0 == [dt |-> None, dn |-> None, ds |-> None, kt |-> None, kn |-> None, ks |-> None, ko |-> None, mark |-> ""]
Conds == {[t |-> "upos", v |-> "NOUN"], [t |-> "leaf", v |-> ""], [t |-> "top", v |-> ""], [t |-> "nonproj", v |-> ""], [t |-> "kids", v |-> ""]}
Closed(x) == \A i \in 1..Len(x) : x[i].h = 0 \/ \E j \in 1..Len(x) : x[j].k = x[i].h
InOrder(x) == \A i, j \in 1..Len(x) : i < j => x[i].k < x[j].k
\* What is left is a tree in the same order
FilterInv == (m = "tree" /\ Ok) => \A c \in Conds : \A p \in {[P0 EXCEPT !.ds = c], [P0 EXCEPT !.ks = c], [P0 EXCEPT !.ko = c], [P0 EXCEPT !.kn = c]} :
    LET x == Filtered(w, p) IN IsGone(x) \/ (Closed(x) /\ InOrder(x))
\* Nodes kept keep what was above them, but for the nodes which are gone
NodesInv == (m = "tree" /\ Ok) => \A c \in Conds :
    LET x == Filtered(w, [P0 EXCEPT !.ko = c]) IN
    IF IsGone(x) THEN Matching(w, c) = {}
    ELSE /\ {y.k : y \in SetOf(x)} = KeysOf(w, Matching(w, c))
         /\ \A i, j \in 1..Len(x) : IsUnder(x, x[i].k, x[j].k) = IsUnder(w, x[i].k, x[j].k)
\* Deleting subtrees and keeping what is in them divides the words
SubtreeInv == (m = "tree" /\ Ok) => \A c \in Conds :
    LET x == Filtered(w, [P0 EXCEPT !.ds = c]) y == Filtered(w, [P0 EXCEPT !.ks = c]) K(z) == IF IsGone(z) THEN {} ELSE {a.k : a \in SetOf(z)} IN
    K(x) \cap K(y) = {} /\ K(x) \cup K(y) = {a.k : a \in SetOf(w)}
O == [A |-> <<"form">>, ip |-> FALSE]
\* Alignment is one to one and monotone; equal trees have no difference, and with no difference trees are equal
DiffInv == (m = "pair" /\ Ok) =>
    LET D == Diff(v, w, O) A == D.M \cup D.R IN
    /\ D.M \cap D.R = {}
    /\ \A x, y \in A : (x[1] < y[1]) = (x[2] < y[2]) /\ (x[1] = y[1]) = (x[2] = y[2])
    /\ (D.p = {} /\ D.g = {}) = (v = w)
    /\ Len(SelectSeq(DiffStats(v, w, O, D), LAMBDA s : s = "ADD-WORD")) + Cardinality(A) = Len(w)
EmitInv == (Emit /\ Ok /\ (m = "tree" \/ v # <<>>)) => PrintT("@@STIM " \o ToJson([m |-> m, v |-> v, w |-> w]))
=============================================================================
