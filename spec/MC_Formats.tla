------------------------------ MODULE MC_Formats ------------------------------
(* Exhaustive: trees of up to N words with special characters in all places;  *)
(* what is written in VISL CG can be read back, and Stanford dependencies name    *)
(* the words of each edge unambiguously.                                           *)
EXTENDS Formats, Json, TLC
CONSTANTS N, Emit
VARIABLES t
Sec == "S"
Voc == {[f |-> "a", l |-> "l", x |-> "n", fe |-> "_"], [f |-> "S=", l |-> "a \"b", x |-> "(x|", fe |-> "A=1|B=2|C=S"], [f |-> "a b", l |-> "Snum.", x |-> "#", fe |-> "A=;"]}
Init == t = [w |-> <<>>, t |-> <<>>]
Next == \/ Len(t.w) < N /\ \E v \in Voc, h \in (0..N) \ {Len(t.w) + 1} : t' = [t EXCEPT !.w = Append(@, [h |-> h, f |-> v.f, l |-> v.l, u |-> "U", x |-> v.x, fe |-> v.fe, d |-> "d", mi |-> "_", sp |-> FALSE])]
        \/ \E a \in 1..Len(t.w), f \in {"a b", "ab"} : a < Len(t.w) /\ (IF t.t = <<>> THEN TRUE ELSE t.t[Len(t.t)].b < a) /\ t' = [t EXCEPT !.t = Append(@, [a |-> a, b |-> Len(t.w), f |-> f, sp |-> FALSE])]
Spec == Init /\ [][Next]_t
Ok == \A i \in 1..Len(t.w) : t.w[i].h <= Len(t.w)
VislInv == (Ok /\ t.w # <<>>) => VislRead(VislLines(t, Sec), Sec) = VislKept(t)
\* With positions given always, no two words have the same name
SdInv == \A i, j \in 1..Len(t.w) : i # j => SdForm(t, i, [ord |-> TRUE]) # SdForm(t, j, [ord |-> TRUE]) /\ SdForm(t, i, [ord |-> FALSE]) # SdForm(t, j, [ord |-> FALSE])
IsTree == \A i \in 1..Len(t.w) : LET RECURSIVE up(_, _) up(x, k) == IF x = 0 THEN TRUE ELSE IF k = 0 THEN FALSE ELSE up(t.w[x].h, k - 1) IN up(i, Len(t.w) + 1)
EmitInv == (Emit /\ Ok /\ t.w # <<>> /\ IsTree) => PrintT("@@STIM " \o ToJson(t))
=============================================================================
