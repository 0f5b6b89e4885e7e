-------------------------------- MODULE Convert --------------------------------
(* ud.Convert1to2: conversion of UD version 1 to version 2.  A word is           *)
(* [h, f, l, u, d, sp (no space after), fe: features <<name, value>>, td: the     *)
(* notes in ToDo, od: attribute orig_deprel of MISC]; a conversion goes through    *)
(* states [w, log] where log lists what needs manual work, as <<word, note>>       *)
(* (word 0: the tree as a whole).                                                 *)
EXTENDS Fixes

IsRoot(x) == x = 0
Upos(w, x) == IF x = 0 THEN "<ROOT>" ELSE w[x].u
Deprel(w, x) == IF x = 0 THEN "<ROOT>" ELSE w[x].d
HasFeat(n, k) == \E i \in 1..Len(n.fe) : n.fe[i][1] = k
Feat(n, k) == IF HasFeat(n, k) THEN (CHOOSE p \in SetOf(n.fe) : p[1] = k)[2] ELSE ""
Drop(n, k) == [n EXCEPT !.fe = SelectSeq(@, LAMBDA p : p[1] # k)]
SetFeat(n, k, v) == [n EXCEPT !.fe = Append(SelectSeq(@, LAMBDA p : p[1] # k), <<k, v>>)]
Note(s, x, note) ==
    [w |-> IF x = 0 \/ note \in SetOf(s.w[x].td) THEN s.w ELSE [s.w EXCEPT ![x].td = Append(@, note)],
     log |-> Append(s.log, <<x, note>>)]
Put(s, x, n) == [s EXCEPT !.w[x] = n]

(****************************** a word ***************************************)
NewName == [mwe |-> "fixed", dobj |-> "obj", nsubjpass |-> "nsubj:pass", csubjpass |-> "csubj:pass", auxpass |-> "aux:pass", name |-> "flat:name", foreign |-> "flat"]
Old == DOMAIN NewName
UposOf(s, x) == IF s.w[x].u = "CONJ" THEN [s EXCEPT !.w[x].u = "CCONJ"] ELSE s
Copula(s, x) == IF s.w[x].d = "cop" /\ s.w[x].u \notin {"AUX", "PRON"} THEN [s EXCEPT !.w[x].u = "AUX"] ELSE s
Relation(s, x) ==
    LET n == s.w[x] u == Uni(n.d) sub == Sub(n.d)
        a == IF u = "foreign" THEN Put(s, x, SetFeat(n, "Foreign", "Yes")) ELSE s
        new == NewName[u]
    IN IF u \notin Old THEN a
       ELSE IF sub = "" THEN [a EXCEPT !.w[x].d = new]
       ELSE IF ContainsStr(new, ":") THEN Note([a EXCEPT !.w[x].d = new], x, "deprel")
       ELSE [a EXCEPT !.w[x].d = new \o ":" \o sub]
Verbal(w, x) == Upos(w, x) = "VERB" \/ \E i \in Kids(w, x) : w[i].d = "cop"
Negation(s, x) ==
    LET n == s.w[x]
        m == IF ContainsStr(Feat(n, "PronType"), "Neg") THEN n ELSE SetFeat(n, "Polarity", "Neg")
        a == Put(s, x, m)
    IN IF n.d # "neg" THEN s
       ELSE IF n.u \in {"ADV", "PART", "AUX"} THEN [a EXCEPT !.w[x].d = "advmod"]
       ELSE IF n.u = "DET" THEN [a EXCEPT !.w[x].d = "det"]
       ELSE IF n.u = "INTJ" THEN [a EXCEPT !.w[x].d = "advmod", !.w[x].u = IF Verbal(s.w, n.h) THEN "PART" ELSE @]
       ELSE Note(a, x, "neg")
Nominal(w, x) ==
    LET u == Upos(w, x) pred == \E i \in Kids(w, x) : w[i].d = "cop" \/ ContainsStr(w[i].d, "subj") IN
    IF u \in {"VERB", "AUX", "ADV"} THEN "no"
    ELSE IF u = "ADJ" THEN (IF pred THEN "no" ELSE "maybe")
    ELSE IF u \in {"NOUN", "PRON", "PROPN", "NUM", "DET"} THEN (IF pred THEN "maybe" ELSE "yes")
    ELSE "maybe"
Oblique(s, x) ==
    LET n == s.w[x] p == Nominal(s.w, n.h) IN
    IF Uni(n.d) # "nmod" THEN s
    ELSE IF p = "no" THEN [s EXCEPT !.w[x].d = "obl" \o From(n.d, 5)]
    ELSE IF n.d = "nmod:tmod" THEN [s EXCEPT !.w[x].d = "obl:tmod"]
    ELSE IF n.d # "nmod:poss" /\ p = "maybe" THEN Note(s, x, "nmod")
    ELSE s
Features(s, x) ==
    LET n == s.w[x]
        Change(m, k, a, b) == IF Feat(m, k) = a THEN SetFeat(m, k, b) ELSE m
        one == IF HasFeat(n, "Negative") THEN Drop(SetFeat(n, "Polarity", Feat(n, "Negative")), "Negative") ELSE n
        two == Change(Change(Change(Change(one, "Aspect", "Pro", "Prosp"), "VerbForm", "Trans", "Conv"), "Definite", "Red", "Cons"), "Foreign", "Foreign", "Yes")
        a == Put(s, x, two)
        b == IF Feat(two, "Tense") = "Nar" THEN Note(a, x, "nar") ELSE a
    IN IF Feat(two, "NumType") = "Gen" THEN Note(b, x, "gen") ELSE b
Word(s, x, skip) ==
    LET Do(t, name, f(_, _)) == IF name \in skip THEN t ELSE f(t, x) IN
    Do(Do(Do(Do(Do(Do(s, "upos", UposOf), "upos_copula", Copula), "deprel_simple", Relation), "neg", Negation), "nmod", Oblique), "feats", Features)

(******************************* neighbours **********************************)
\* A flat structure with the head at the end gets its first part as the head
Flip(w, x, d) ==
    LET p == w[x].h K == Kids(w, p) first == Min({i \in K : Uni(w[i].d) = d}) IN
    IF p = 0 \/ ~(Uni(w[x].d) = d /\ x < p) THEN w
    ELSE LET v == Move(w, K \ {first}, first) IN
         [v EXCEPT ![first].h = w[p].h, ![first].d = w[p].d, ![p].h = first, ![p].d = w[x].d]
Flips(s, x, skip) ==
    LET a == IF "goeswith" \in skip THEN s.w ELSE Flip(s.w, x, "goeswith") IN
    [s EXCEPT !.w = IF "flat" \in skip THEN a ELSE Flip(a, x, "flat")]

(******************************** ellipsis ***********************************)
Priority == [nsubj |-> 9, obj |-> 8, iobj |-> 7, obl |-> 6, advmod |-> 5, csubj |-> 4, xcomp |-> 3, ccomp |-> 2, advcl |-> 1]
Rank(d) == IF d \in DOMAIN Priority THEN Priority[d] ELSE 0
Above(w, x) == <<x>> \o Chain(w, x)
Common(w, S) == LET q == Above(w, Min(S)) IN q[Min({k \in 1..Len(q) : \A x \in S : q[k] \in SetOf(Above(w, x))})]
Remnants(w) == {x \in 1..Len(w) : w[x].d = "remnant"}
\* What stands for the clause the ellipsis repeats: the word above all remnants and above the head of what the first one corresponds to (0: none)
Clause(w) == LET first == Min(Remnants(w)) p == w[first].h IN IF p = 0 THEN 0 ELSE Common(w, Remnants(w) \cup {w[p].h})
\* q: pairs <<remnant, relation of what it corresponds to>>
RECURSIVE Layer(_, _, _)
Layer(s, q, top) ==
    LET RECURSIVE Look(_, _, _)
        Below(x) == SetToSortSeq({i \in Kids(s.w, x) : s.w[i].d = "remnant"}, LAMBDA a, b : a < b)
        Look(t, next, i) ==
            IF i > Len(q) THEN [s |-> t, next |-> next]
            ELSE LET x == q[i][1] K == Below(x)
                     u == [t EXCEPT !.w[x].od = q[i][2]]
                 IN Look(IF Len(K) > 1 THEN Note(u, x, "more-remnant-children") ELSE u, next \o [k \in 1..Len(K) |-> <<K[k], q[i][2]>>], i + 1)
        seen == Look(s, <<>>, 1)
        up == q[Len(q)]
        orphans == {q[i][1] : i \in 1..(Len(q) - 1)}
        v == [i \in 1..Len(s.w) |-> LET n == seen.s.w[i] IN
                IF i = up[1] THEN [n EXCEPT !.h = top, !.d = "conj", !.od = IF s.w[top].d = up[2] THEN "" ELSE @]
                ELSE IF i \in orphans THEN [n EXCEPT !.h = up[1], !.d = "orphan"] ELSE n]
        t == [w |-> v, log |-> seen.s.log]
    IN IF seen.next = <<>> THEN t ELSE Layer(t, seen.next, top)
Ellipsis(s) ==
    LET R == Remnants(s.w)
        top == Clause(s.w)
        Tops == {x \in R : Deprel(s.w, s.w[x].h) # "remnant"}
        q == SetToSortSeq(Tops, LAMBDA a, b : LET i == Rank(s.w[s.w[a].h].d) j == Rank(s.w[s.w[b].h].d) IN i < j \/ (i = j /\ a < b))
    IN IF R = {} THEN s
       ELSE IF top = 0 THEN Note(s, Min(R), "remnant")
       ELSE Layer(s, [k \in 1..Len(q) |-> <<q[k], s.w[s.w[q[k]].h].d>>], top)
\* Remnants which govern the remaining ones make no sense and are not promised
SoundEllipsis(w) == Remnants(w) = {} \/ LET x == Min(Remnants(w)) IN
                    w[x].h = 0 \/ (Deprel(w, w[w[x].h].h) # "remnant" /\ Deprel(w, Clause(w)) # "remnant")

(****************************** coordination *********************************)
Coordination(s, x) ==
    LET w == s.w n == w[x] p == n.h
        S == Kids(w, p)
        C == {i \in S : w[i].d = "conj"}
        After == {i \in C : i > x}
        rest == Min({i \in S : i > x /\ w[i].d # "cc"})
    IN IF ~(n.d = "cc" \/ (n.d = "punct" /\ n.l \in {",", ";"})) THEN s
       ELSE IF C = {} THEN (IF n.d = "cc" /\ p < x THEN Note(s, x, "cc-without-conj") ELSE s)
       ELSE IF x < Min(C) /\ x < p THEN s
       ELSE IF After = {} THEN (IF n.d = "cc" THEN Note(s, x, "cc-after-conj") ELSE s)
       ELSE IF x < p /\ p < Min(After) THEN s
       ELSE IF rest # Min(After) THEN Note(s, x, n.d \o "-in-coord")
       ELSE [s EXCEPT !.w[x].h = Min(After)]

(********************************* the tree **********************************)
Fold(w, s, f(_, _)) == FoldLeft(f, s, [i \in 1..Len(w) |-> i])
\* After the changes of words and flat structures
Prepared(w, skip) == Fold(w, Fold(w, [w |-> w, log |-> <<>>], LAMBDA s, x : Word(s, x, skip)), LAMBDA s, x : Flips(s, x, skip))
\* Whether the rest is promised
Promised(s, skip) == "remnants" \in skip \/ SoundEllipsis(s.w)
Finished(s, skip) ==
    LET c == IF "remnants" \in skip THEN s ELSE Ellipsis(s) IN
    IF "coord" \in skip THEN c ELSE Fold(s.w, c, LAMBDA t, x : Coordination(t, x))
Converted(w, skip) == Finished(Prepared(w, skip), skip)
Spaced(w) == FoldLeft(LAMBDA a, i : a \o w[i].f \o (IF w[i].sp \/ i = Len(w) THEN "" ELSE " "), "", [i \in 1..Len(w) |-> i])
Squeezed(t) == Join(SelectSeq(Split(t, " "), LAMBDA p : p # ""), " ")
\* The text of the tree after the conversion ("": there was none), and whether it has been replaced
TextOf(w, text) == IF text = "" \/ Squeezed(text) # Spaced(w) THEN Spaced(w) ELSE text
Replaced(w, text) == text # "" /\ text # Spaced(w) /\ Squeezed(text) # Spaced(w)
\* The overview of a document: <<note, how many>>, the rare ones first
Overview(logs) ==
    LET all == FoldLeft(LAMBDA a, q : a \o q, <<>>, logs)
        many(n) == Cardinality({i \in 1..Len(all) : all[i] = n})
    IN SetToSortSeq({<<n, many(n)>> : n \in SetOf(all)}, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ LexLeq(Codes(a[1]), Codes(b[1])) /\ a[1] # b[1]))
=============================================================================
