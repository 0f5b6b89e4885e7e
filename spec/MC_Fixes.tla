------------------------------- MODULE MC_Fixes -------------------------------
(* Exhaustive: all trees of up to N words (P words for projectivity), with the *)
(* few values that matter for each block.                                       *)
EXTENDS Fixes, Json, TLC
CONSTANTS N, P, Emit
VARIABLES m, w

Word(h, f, l, u, d) == [h |-> h, f |-> f, l |-> l, u |-> u, d |-> d, mi |-> "", ed |-> <<>>]
Ds(S) == {<<"f", "l", "X", d>> : d \in S}
Kinds == {"proj", "deproj", "chain", "right", "root", "leaf", "subj", "name", "pchild", "cop"}
Voc(k) == CASE m = "proj" -> Ds({"d" \o ToString(k)})
            [] m = "deproj" -> Ds({"a", "b:x+a", "b"})
            [] m = "chain" -> Ds({"flat", "fixed", "flat:x", "dep"})
            [] m = "right" -> Ds({"flat", "conj", "dep"})
            [] m = "root" -> Ds({"root", "root:x", "dep"})
            [] m = "leaf" -> Ds({"case", "cc", "conj", "dep"})
            [] m = "subj" -> Ds({"nsubj", "csubj:x", "nsubj:outer"})
            [] m = "name" -> {<<"a", "l", "PROPN", "compound">>, <<"b1", "l", "PROPN", "compound">>, <<"a", "l", "PROPN", "dep">>, <<"a", "l", "X", "compound">>}
            [] m = "pchild" -> Ds({"punct", "punct:x", "dep"})
            [] m = "cop" -> {<<"f", "be", "AUX", "cop">>, <<"f", "be", "X", "dep">>, <<"f", "x", "X", "nsubj">>, <<"f", "x", "X", "cop">>}
Size == IF m = "proj" THEN P ELSE N
Init == m \in Kinds /\ w = <<>>
Next == /\ UNCHANGED m
        /\ Len(w) < Size
        /\ \E h \in (0..Size) \ {Len(w) + 1}, v \in Voc(Len(w) + 1) : w' = Append(w, Word(h, v[1], v[2], v[3], v[4]))
Spec == Init /\ [][Next]_<<m, w>>
Ok == (\A x \in 1..Len(w) : w[x].h <= Len(w)) /\ IsTree(w)

O == [b |-> m, one |-> TRUE, label |-> "deprel", L |-> <<"be">>, aux |-> FALSE,
      D |-> CASE m = "chain" -> <<"fixed", "flat">> [] m = "right" -> <<"flat", "conj">> [] OTHER -> <<"case", "cc">>]
\* The result is a tree and what the block is for is there; another run changes nothing
GoalInv == (m # "proj" /\ Ok) =>
    LET v == Fixed(w, O) IN
    /\ IsTree(v) /\ Goal(v, O)
    /\ m \notin {"deproj", "cop"} => Fixed(v, O) = v
\* Relations are only exchanged; a tree with nothing to repair stays
RightInv == (m = "right" /\ Ok) => LET v == Fixed(w, O) IN
    \A d \in {"flat", "conj", "dep"} : Cardinality({x \in 1..Len(w) : w[x].d = d}) = Cardinality({x \in 1..Len(v) : v[x].d = d})
NothingInv == (m \notin {"proj", "deproj"} /\ Ok /\ Goal(w, O) /\ m # "cop") => Fixed(w, O) = w
FlatInv == Ok => \A one \in BOOLEAN : LET o == [O EXCEPT !.b = "flatten", !.one = one] IN IsTree(Fixed(w, o)) /\ Goal(Fixed(w, o), o)
\* Lifting gives a projectivization, and lowering of a single lifted edge puts it back
ProjInv == (m = "proj" /\ Ok) => \A label \in {"misc", "deprel"} :
    LET v == Projectivized(w, label) IN
    /\ ProjOk(w, v, label) = [projective |-> TRUE, heads |-> TRUE, marks |-> TRUE, least |-> TRUE]
    /\ Cardinality({x \in 1..Len(w) : v[x].h # w[x].h}) = 1 =>
          LET u == Deprojectivized(v, label) IN [i \in 1..Len(u) |-> [u[i] EXCEPT !.mi = ""]] = w
EmitInv == (Emit /\ Ok) => PrintT("@@STIM " \o ToJson([m |-> m, w |-> w]))
=============================================================================
