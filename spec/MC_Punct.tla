------------------------------- MODULE MC_Punct -------------------------------
(* Exhaustive: all trees of up to N words from a few forms (any), and all       *)
(* projective trees with punctuation as leaves of up to P words (usual).         *)
EXTENDS Punct, Json, TLC
CONSTANTS N, P, Emit
VARIABLES m, w

Word(h, f, u, d) == [h |-> h, f |-> f, l |-> "l", u |-> u, d |-> d, mi |-> "", ed |-> <<>>]
Init == m \in {"any", "usual"} /\ w = <<>>
Size == IF m = "any" THEN N ELSE P
Voc == IF m = "any" THEN {<<"a", "X">>, <<",", "PUNCT">>, <<".", "PUNCT">>, <<"(", "PUNCT">>, <<")", "X">>, <<"\"", "PUNCT">>, <<"\"", "X">>}
       ELSE {<<"a", "X">>, <<",", "PUNCT">>, <<".", "PUNCT">>, <<"(", "PUNCT">>, <<")", "PUNCT">>}
\* (a cut for "usual": nothing hangs on punctuation)
Next == /\ UNCHANGED m
        /\ Len(w) < Size
        /\ \E h \in (0..Size) \ {Len(w) + 1}, v \in Voc :
             LET x == Word(h, v[1], v[2], IF h = 0 THEN "root" ELSE "dep") y == Append(w, x) IN
             /\ m = "usual" => (h = 0 => v[2] # "PUNCT" /\ Kids(w, 0) = {}) /\ (\A i \in 1..Len(y) : y[i].h \in 1..Len(y) => ~Tagged(y, y[i].h))
             /\ w' = y
Spec == Init /\ [][Next]_<<m, w>>
Ok == (\A x \in 1..Len(w) : w[x].h <= Len(w)) /\ IsTree(w) /\ (m = "usual" => Projective(w))
Os == {[upos |-> a, enh |-> FALSE] : a \in BOOLEAN}
ReachInv == Ok => \A o \in Os : LET v == Punctuated(w, o) r == Reached(w, v, o) IN IsTree(v) /\ \A g \in DOMAIN r : r[g]
EmitInv == (Emit /\ Ok) => PrintT("@@STIM " \o ToJson([m |-> m, w |-> w]))
=============================================================================
