------------------------------- MODULE MC_Bugs -------------------------------
(* Exhaustive: all trees of up to N words with values that matter.  What the  *)
(* repairing blocks of Fixes and Punct are for is no longer reported after.    *)
EXTENDS Bugs, Punct, Json, TLC
CONSTANTS N, Emit
VARIABLES m, w

Word(h, f, u, d) == [h |-> h, f |-> f, l |-> "l", u |-> u, d |-> d, mi |-> "", ed |-> <<>>, fe |-> <<>>, sp |-> FALSE, bug |-> ""]
Kinds == {"chain", "head", "subj", "punct", "goes"}
Voc == CASE m = "chain" -> {<<"a", "AUX", "aux">>, <<"a", "X", "fixed:x">>, <<"a", "X", "list">>, <<"a", "X", "dep">>}
         [] m = "head" -> {<<"a", "X", "flat">>, <<"a", "X", "conj">>, <<"a", "X", "fixed">>, <<"a", "X", "dep">>}
         [] m = "subj" -> {<<"a", "PRON", "nsubj">>, <<"a", "VERB", "csubj:outer">>, <<"a", "X", "obj">>, <<"a", "X", "case">>}
         [] m = "punct" -> {<<"a", "X", "dep">>, <<",", "PUNCT", "punct">>, <<"a", "PUNCT", "dep">>}
         [] m = "goes" -> {<<"a", "X", "goeswith">>, <<"a", "X", "dep">>, <<"a", "DET", "det">>}
Init == m \in Kinds /\ w = <<>>
Next == /\ UNCHANGED m /\ Len(w) < N
        /\ \E h \in (0..N) \ {Len(w) + 1}, v \in Voc : w' = Append(w, Word(h, v[1], v[2], v[3]))
Spec == Init /\ [][Next]_<<m, w>>
Ok == (\A x \in 1..Len(w) : w[x].h <= Len(w)) /\ IsTree(w)
All(v) == {r[2] : r \in UNION {Reports(v, "en")[x] : x \in 1..Len(v)}}
Fx(b, D) == Fixed(w, [b |-> b, D |-> D])
FixedInv == Ok =>
    /\ {"fixed-chain", "list-chain", "aux-chain", "goeswith-chain"} \cap All(Fx("chain", <<"fixed", "list", "aux", "goeswith">>)) = {}
    /\ {"flat-rightheaded", "fixed-rightheaded", "conj-rightheaded", "goeswith-rightheaded", "list-rightheaded"} \cap All(Fx("right", <<"flat", "fixed", "conj", "goeswith", "list">>)) = {}
    /\ "multi-subj" \notin All(Fx("subj", <<>>))
PunctInv == (Ok /\ m = "punct") => LET o == [upos |-> FALSE, enh |-> FALSE] IN
    Usual(w, o) => {"punct-nonproj", "punct-nonproj-gap"} \cap All(Punctuated(w, o)) = {}
\* A report names the word it is about
WordInv == Ok => \A x \in 1..Len(w) : \A r \in Reports(w, "en")[x] : r[1] \in 1..Len(w) /\ (r[1] # x => Uni(w[x].d) = "goeswith")
EmitInv == (Emit /\ Ok) => PrintT("@@STIM " \o ToJson([m |-> m, w |-> w]))
=============================================================================
