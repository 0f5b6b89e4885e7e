---------------------------- MODULE MC_CorefBlocks ----------------------------
(* Exhaustive: trees of K words and up to K2 empty nodes after them, every node *)
(* with one enhanced parent at most, one mention; two mentions for the marks.  *)
EXTENDS CorefBlocks, Json
CONSTANTS K, K2, Emit
VARIABLES s, d

Blank == [em |-> <<>>, h |-> <<>>, d |-> <<>>, le |-> <<>>]
Init == s = Blank /\ d = <<>>
Words1 == Cardinality(Full(s))
Size == K + K2
Grow == /\ N(s) < Size /\ d = <<>>
        /\ \E em \in BOOLEAN, h \in 0..Size, e \in 0..Size :
              /\ em => Cardinality(Empties(s)) < K2 /\ h = 0 /\ e # N(s) + 1
              /\ ~em => Words1 < K /\ h # N(s) + 1 /\ e = 0
              /\ s' = [em |-> Append(s.em, em), h |-> Append(s.h, h), d |-> Append(s.d, IF em THEN <<[p |-> e, r |-> "dep"]>> ELSE <<>>), le |-> Append(s.le, "l")]
              /\ d' = d
\* Heads are words and everybody comes to the root
Tree == LET up(p) == IF p = 0 THEN 0 ELSE s.h[p] IN
        \A p \in Full(s) : (IF s.h[p] = 0 THEN TRUE ELSE ~s.em[s.h[p]]) /\ FoldLeft(LAMBDA x, z : up(x), p, [z \in 1..N(s) |-> z]) = 0
Ready == N(s) = Size /\ Tree
Mention1(W, h) == [s |-> 1, w |-> InOrder(W), h |-> h, o |-> <<>>, b |-> <<>>]
Pick == /\ Ready /\ Len(d) < 1 /\ \E W \in (SUBSET (1..N(s))) \ {{}} : \E h \in {Min(W), Max(W)} :
              d' = <<[id |-> "a", ty |-> "", ms |-> <<Mention1(W, h)>>, sa |-> <<>>]>>
        /\ UNCHANGED s
Next == Grow \/ Pick
Spec == Init /\ [][Next]_<<s, d>>
M1 == d[1].ms[1]
\* The head is a word of the mention; of a treelet it is its top
HeadInv == d # <<>> => \A keep \in BOOLEAN :
    LET t == Top(s, M1, keep) W == Ws(M1) IN
    /\ t \in W
    /\ (W \subseteq Full(s) /\ \E a \in W : \A w \in W : a \in Above(s, w)) => t = (CHOOSE a \in W : \A w \in W : a \in Above(s, w))
\* The guessed span has the head and its subtree
SpanInv == d # <<>> => LET W == GuessedWords(s, M1.h) IN M1.h \in W /\ Subtree(s, M1.h) \subseteq W /\ \A p \in W \ Subtree(s, M1.h) : s.em[p]
\* Without empty nodes every word has a parent, if it had any
DepsInv == d # <<>> => \A p \in Full(s) : LET t == [s EXCEPT !.d[p] = <<[p |-> Size, r |-> "x"]>>] D == WithoutEmpty(t, p) IN
    D # {} /\ \A e \in D : NonEmpty(t, e[1])
EmitInv == (Emit /\ d # <<>>) => PrintT("@@STIM " \o ToJson([s |-> s, d |-> d]))
=============================================================================
