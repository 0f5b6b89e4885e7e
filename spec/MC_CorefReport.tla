---------------------------- MODULE MC_CorefReport ----------------------------
(* Exhaustive: trees of K words and up to K2 empty nodes with two mentions, and  *)
(* sequences of G sentences with or without mentions, starts of documents and    *)
(* paragraphs.                                                                   *)
EXTENDS CorefReport, Json
CONSTANTS K, K2, G, Emit
VARIABLES m, s, d, g

Blank == [em |-> <<>>, h |-> <<>>, d |-> <<>>, le |-> <<>>, f |-> <<>>, u |-> <<>>, dl |-> <<>>, nd |-> "n1", np |-> FALSE]
Init == m \in {"pairs", "gaps"} /\ s = Blank /\ d = <<>> /\ g = <<>>
Size == K + K2
Grow == /\ m = "pairs" /\ N(s) < Size /\ d = <<>>
        /\ \E em \in BOOLEAN, h \in 0..Size, dl \in {"case", "dep"} :
              /\ em => Cardinality(Empties(s)) < K2 /\ h # N(s) + 1 /\ dl = "dep"
              /\ ~em => Cardinality(Full(s)) < K /\ h # N(s) + 1
              /\ s' = [s EXCEPT !.em = Append(@, em), !.h = Append(@, IF em THEN 0 ELSE h), !.d = Append(@, IF em THEN <<[p |-> h, r |-> "dep"]>> ELSE <<>>), !.le = Append(@, "l"),
                                !.f = Append(@, "w" \o ToString(N(s) % 2)), !.u = Append(@, "X"), !.dl = Append(@, IF em THEN "" ELSE dl)]
        /\ UNCHANGED <<m, d, g>>
Tree == LET up(p) == IF p = 0 THEN 0 ELSE s.h[p] IN
        \A p \in Full(s) : (IF s.h[p] = 0 THEN TRUE ELSE ~s.em[s.h[p]]) /\ FoldLeft(LAMBDA x, z : up(x), p, [z \in 1..N(s) |-> z]) = 0
Mention1(X) == [s |-> 1, w |-> InOrder(X), h |-> Min(X), o |-> <<>>, b |-> <<>>]
Pick == /\ m = "pairs" /\ N(s) = Size /\ Tree /\ Len(d) < 2
        /\ \E X \in (SUBSET (1..N(s))) \ {{}} : d' = Append(d, [id |-> "e" \o ToString(Len(d) + 1), ty |-> "", ms |-> <<Mention1(X)>>, sa |-> <<>>])
        /\ UNCHANGED <<m, s, g>>
Gap == /\ m = "gaps" /\ Len(g) < G
       /\ \E nd \in BOOLEAN, np \in BOOLEAN, has \in BOOLEAN : g' = Append(g, [nd |-> IF nd THEN "n" \o ToString(Len(g) + 1) ELSE "", np |-> np, has |-> has])
       /\ UNCHANGED <<m, s, d>>
Next == Grow \/ Pick \/ Gap
Spec == Init /\ [][Next]_<<m, s, d, g>>

A == [e |-> 1, m |-> d[1].ms[1]]
B == [e |-> 2, m |-> d[2].ms[1]]
Free == [same_entity |-> 0, same_head |-> 0, both_continuous |-> 0, both_discontinuous |-> 0, same_span |-> 0, same_subspan |-> 0, nested |-> 0, crossing |-> 0, interleaved |-> 0]
\* How two mentions lie is one of four ways and does not depend on their order; every question has its complement
PairInv == Len(d) = 2 =>
    /\ \A k \in DOMAIN Free : \A v \in {1, -1} : LET o == [Free EXCEPT ![k] = v] IN
          /\ PairOk(s, A, B, o) = PairOk(s, B, A, o)
          /\ PairOk(s, A, B, o) # PairOk(s, A, B, [Free EXCEPT ![k] = 0 - v])
    /\ PairOk(s, A, B, Free)
    /\ LET is(k) == PairOk(s, A, B, [Free EXCEPT ![k] = 1]) IN
       /\ Cardinality({k \in {"nested", "crossing", "interleaved"} : is(k)}) = IF Precede(A, B) \/ Precede(B, A) THEN 0 ELSE 1
       /\ is("same_span") => is("nested")
       /\ is("same_subspan") => is("nested") \/ is("crossing")
\* Forests are almost forests, continuous mentions almost continuous; a subtree without empty nodes is all of it
MentionInv == Len(d) = 1 => LET x == A.m IN
    /\ Forest(s, x) => AlmostForest(s, x)
    /\ ~Broken(A) => AlmostContinuous(s, x)
    /\ x.w = InOrder(Subtree(s, x.h)) => Treelet(s, x) /\ Forest(s, x)
    /\ Len(Spans(s, x.w)) = Len(Runs(x.w))
Fake == [i \in 1..Len(g) |-> [nd |-> g[i].nd, np |-> g[i].np]]
Ents == <<[id |-> "e", ty |-> "", sa |-> <<>>, ms |-> LET q == SelectSeq([i \in 1..Len(g) |-> i], LAMBDA i : g[i].has) IN [j \in 1..Len(q) |-> [Mention1({1}) EXCEPT !.s = q[j]]]]>>
\* All sentences without mentions are in sequences, those of empty paragraphs are some of them
GapInv == m = "gaps" => LET t == Tables(Fake, Ents, DocParts(Fake)) IN
    /\ t[1].sum = Cardinality({i \in 1..Len(g) : ~g[i].has})
    /\ t[2].sum <= t[1].sum
    /\ (\A i \in 1..Len(g) : ~g[i].has) => t[2].sum = Len(g)
EmitInv == (Emit /\ (Len(d) = 2 \/ g # <<>>)) => PrintT("@@STIM " \o ToJson([m |-> m, s |-> s, d |-> d, g |-> g]))
=============================================================================
