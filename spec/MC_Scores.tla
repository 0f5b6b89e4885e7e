------------------------------- MODULE MC_Scores -------------------------------
(* Exhaustive: all pairs of trees of up to M words with one of two forms and   *)
(* relations each, and all pairs of up to K tokens over three letters.         *)
EXTENDS Scores, Json, TLC
CONSTANTS M, K, Emit
VARIABLES m, v, w, a, b

Word(k, h, f, d) == [k |-> k, h |-> h, f |-> f, l |-> f, u |-> IF d = "det" THEN "DET" ELSE "X", x |-> "x", fe |-> <<>>, d |-> d, mi |-> <<>>]
Init == m \in {"pair", "lcs"} /\ v = <<>> /\ w = <<>> /\ a = <<>> /\ b = <<>>
More(x) == {Append(x, Word(Len(x) + 1, h, f, d)) : h \in (0..M) \ {Len(x) + 1}, f \in {"a", "b"}, d \in {"obj", "det"}}
IsTree(x) == LET up(p) == IF p = 0 THEN 0 ELSE x[p].h IN
             /\ \A p \in 1..Len(x) : x[p].h <= Len(x)
             /\ \A p \in 1..Len(x) : FoldLeft(LAMBDA z, i : up(z), p, [i \in 1..Len(x) |-> i]) = 0
Next == /\ m' = m
        /\ IF m = "pair" THEN UNCHANGED <<a, b>> /\ IF Len(w) < M /\ v = <<>> THEN (w' \in More(w) /\ v' = v) \/ (v' \in More(v) /\ w' = w) ELSE Len(v) < M /\ v' \in More(v) /\ w' = w
           ELSE UNCHANGED <<v, w>> /\ IF Len(a) < K /\ b = <<>> THEN (\E t \in {"a", "b", "c"} : a' = Append(a, t) /\ b' = b) \/ (\E t \in {"a", "b", "c"} : b' = Append(b, t) /\ a' = a)
                                   ELSE Len(b) < K /\ \E t \in {"a", "b", "c"} : b' = Append(b, t) /\ a' = a
Spec == Init /\ [][Next]_<<m, v, w, a, b>>
Ok == m = "pair" /\ IsTree(v) /\ IsTree(w)
ScoreInv == Ok => \A s \in {Conll18(v, w)} :
    /\ s.MLAS <= s.CLAS /\ s.BLEX <= s.CLAS /\ s.CLAS <= s.LAS /\ s.LAS <= s.UAS /\ s.UAS <= s.Words /\ s.Words <= s.pred /\ s.Words <= s.gold
    /\ s.AllTags <= s.UPOS /\ s.aligc <= s.goldc
    /\ v = w => s.LAS = Len(w) /\ s.MLAS = s.goldc /\ s.BLEX = s.goldc /\ s.AllTags = Len(w)
    /\ LET t == Conll18(w, v) IN t.pred = s.gold /\ t.goldc = s.predc
    /\ LET t == Conll17(v, w) IN t.LAS = s.LAS /\ t.UAS = s.UAS /\ t.Words = s.Words
LcsInv == m = "lcs" =>
    /\ LcsLen(a, b) = LcsLen(b, a) /\ \A s \in Lcs(a, b) : Len(s) = LcsLen(a, b)
    /\ \A s \in Lcs(a, b) : LcsLen(s, a) = Len(s) /\ LcsLen(s, b) = Len(s)
    /\ (LcsLen(a, b) = Len(a)) = (\E I \in SUBSET (1..Len(b)) : Cardinality(I) = Len(a) /\ LET q == SetToSortSeq(I, LAMBDA x, y : x < y) IN \A i \in 1..Len(a) : b[q[i]] = a[i])
\* A focus never gives more, all tokens in focus give the same, equal sentences give everything
FocusInv == m = "lcs" => \A F \in {{"a"}, {"a", "b"}, {"a", "b", "c"}, {}} :
    /\ \A s \in Focused(a, b, F) : Len(s) + LcsLen(SelectSeq(a, LAMBDA x : x \notin F), SelectSeq(b, LAMBDA x : x \notin F)) <= LcsLen(a, b)
    /\ F = {"a", "b", "c"} => Focused(a, b, F) = Lcs(a, b)
    /\ a = b => Focused(a, b, F) = {SelectSeq(a, LAMBDA x : x \in F)}
EmitInv == Emit => IF m = "lcs" THEN PrintT("@@STIM " \o ToJson([m |-> m, a |-> a, b |-> b])) ELSE (~Ok \/ PrintT("@@STIM " \o ToJson([m |-> m, v |-> v, w |-> w])))
=============================================================================
