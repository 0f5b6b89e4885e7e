------------------------------ MODULE MC_Convert ------------------------------
(* Exhaustive: all trees of up to N words over small vocabularies for each kind *)
(* of change.                                                                    *)
EXTENDS Convert, Json, TLC
CONSTANTS N, Emit
VARIABLES m, w

V(u, d) == [f |-> "f", l |-> "l", u |-> u, d |-> d, sp |-> FALSE, fe |-> <<>>, td |-> <<>>, od |-> ""]
F(fe) == [V("X", "dep") EXCEPT !.fe = fe]
L(d, l) == [V("X", d) EXCEPT !.l = l]
Kinds == {"words", "nominal", "flat", "ellipsis", "coord"}
Voc == CASE m = "words" -> {V("X", "dobj"), V("CONJ", "dobj:x"), V("INTJ", "neg"), V("NOUN", "neg"), V("VERB", "nsubjpass:x"), V("ADJ", "cop"), F(<<<<"Negative", "Neg">>>>)}
         [] m = "nominal" -> {V("ADJ", "nmod"), V("NOUN", "nmod:tmod"), V("VERB", "nsubj"), V("NOUN", "cop"), V("NOUN", "nmod:x")}
         [] m = "flat" -> {V("X", "name"), V("X", "goeswith"), V("X", "dep"), V("X", "foreign")}
         [] m = "ellipsis" -> {V("X", "remnant"), V("X", "nsubj"), V("X", "dobj")}
         [] m = "coord" -> {V("X", "conj"), V("X", "cc"), V("X", "dep"), L("punct", ",")}
Size == IF m \in {"words", "nominal"} THEN 3 ELSE IF m = "flat" THEN 4 ELSE N
Init == m \in Kinds /\ w = <<>>
Next == /\ UNCHANGED m
        /\ Len(w) < Size
        /\ \E h \in (0..Size) \ {Len(w) + 1}, v \in Voc : w' = Append(w, [h |-> h] @@ v)
Spec == Init /\ [][Next]_<<m, w>>
Ok == (\A x \in 1..Len(w) : w[x].h <= Len(w)) /\ IsTree(w)

I == 1..Len(w)
\* The same words in a tree, and no relation or tag of version 1 is left except for what is noted
Sound(out) == IsTree(out.w) /\ \A x \in I : LET n == out.w[x] IN
    /\ n.f = w[x].f /\ n.l = w[x].l
    /\ Uni(n.d) \notin Old /\ n.u # "CONJ"
    /\ n.d = "neg" => "neg" \in SetOf(n.td)
    /\ n.d = "cop" => n.u \in {"AUX", "PRON"}
    /\ ~HasFeat(n, "Negative")
    /\ SetOf(n.td) = {out.log[k][2] : k \in {k \in 1..Len(out.log) : out.log[k][1] = x}}
\* Ellipsis: all remnants or none are replaced, a conjunct for each clause
EllipsisOk(pre, v) ==
    LET R == Remnants(w) IN
    IF R # {} /\ Clause(pre.w) # 0
    THEN Remnants(v) = {} /\ \A x \in R : v[x].d \in {"conj", "orphan"} /\ (v[x].d = "orphan" => v[v[x].h].d = "conj" /\ v[x].h \in R)
    ELSE Remnants(v) = R
\* Coordination: only commas and conjunctions move, to a conjunct right of them, and a projective tree stays projective
CoordOk(v) ==
    /\ \A x \in I : v[x].h # w[x].h => w[x].d \in {"cc", "punct"} /\ v[v[x].h].d = "conj" /\ x < v[x].h /\ v[v[x].h].h = w[x].h
    /\ Projective(w) => Projective(v)
\* A flat structure with the head at the end becomes one with the head at the beginning
FlatOk(v) == LET n == Len(w) IN
    (n > 1 /\ w[n].h = 0 /\ w[n].d = "dep" /\ \A x \in 1..(n - 1) : w[x].h = n /\ w[x].d = w[1].d /\ w[x].d # "dep") =>
        v[1].h = 0 /\ v[1].d = "dep" /\ \A x \in 2..n : v[x].h = 1 /\ Uni(v[x].d) = Uni(v[2].d)
Inv == Ok => LET pre == Prepared(w, {}) out == Finished(pre, {}) IN
    Promised(pre, {}) => /\ Sound(out)
                         /\ m = "ellipsis" => EllipsisOk(pre, out.w)
                         /\ m = "coord" => CoordOk(out.w)
                         /\ m = "flat" => FlatOk(out.w)
SkipInv == Ok => Converted(w, {"upos", "upos_copula", "deprel_simple", "neg", "nmod", "feats", "goeswith", "flat", "remnants", "coord"}) = [w |-> w, log |-> <<>>]
EmitInv == (Emit /\ Ok) => PrintT("@@STIM " \o ToJson([m |-> m, w |-> w]))
=============================================================================
