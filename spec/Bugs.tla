-------------------------------- MODULE Bugs --------------------------------
(* Blocks which report suspicious words.  Words are those of Fixes with       *)
(* further fields: fe: features as a set of pairs <<name, value>>, sp: is there  *)
(* SpaceAfter=No, bug: the attribute Bug.                                          *)
EXTENDS Fixes

Feat(x, n) == \E p \in SetOf(x.fe) : p[1] = n
Value(x, n) == IF Feat(x, n) THEN (CHOOSE p \in SetOf(x.fe) : p[1] = n)[2] ELSE ""
IsAlpha(c) == c \notin Digits /\ LET k == Code(c) IN (k >= 65 /\ k <= 90) \/ (k >= 97 /\ k <= 122)
AllAlpha(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsAlpha(Ch(s, i))
SomeAlpha(s) == \E i \in 1..Len(s) : IsAlpha(Ch(s, i))
\* Languages whose verbs need not have a form
NoForms == {"id", "jv", "tl", "hil", "ifb"}
HasSub(d, s) == Find(d, s) > 0
If(c, n) == IF c THEN {n} ELSE {}
Subjects(w, x) == {i \in Kids(w, x) : HasSub(Uni(w[i].d), "subj") /\ Sub(w[i].d) # "outer"}
\* What is reported at x itself
Own(w, x, lang) ==
    LET d == Uni(w[x].d) h == w[x].h hd == IF h = 0 THEN "" ELSE Uni(w[h].d) u == w[x].u IN
    UNION {If(d = c /\ hd = c, c \o "-chain") : c \in {"aux", "fixed", "goeswith", "list"}}
    \cup UNION {If(d = c /\ h # 0 /\ x < h, c \o "-rightheaded") : c \in {"flat", "fixed", "conj", "appos", "goeswith", "list"}}
    \cup If(d = "cop" /\ u \notin {"AUX", "PRON"}, "cop-upos")
    \cup If(d = "mark" /\ u = "PRON", "mark-upos")
    \cup If(d = "det" /\ u \notin {"DET", "PRON"}, "det-upos")
    \cup If(d = "punct" /\ u # "PUNCT", "punct-upos")
    \cup If(u \in {"PRON", "DET"} /\ ~Feat(w[x], "PronType"), "no-PronType")
    \cup If(u = "NUM" /\ ~Feat(w[x], "NumType"), "no-NumType")
    \cup If(u = "VERB" /\ ~Feat(w[x], "VerbForm") /\ lang \notin NoForms, "no-VerbForm")
    \cup If(Value(w[x], "VerbForm") = "Fin" /\ u \notin {"VERB", "AUX"}, "finverb-upos")
    \cup If(Value(w[x], "VerbForm") = "Fin" /\ ~Feat(w[x], "Mood"), "finverb-mood")
    \cup If(Cardinality(Subjects(w, x)) > 1, "multi-subj")
    \cup If(Cardinality({i \in Kids(w, x) : Uni(w[i].d) = "obj"}) > 1, "multi-obj")
    \cup (IF hd \in {"aux", "cop", "mark", "clf", "case"} /\ d \notin {"conj", "cc", "punct", "fixed", "goeswith", "advmod"} THEN {w[h].d \o "-child"} ELSE {})
    \cup If(u = "SYM" /\ AllAlpha(w[x].f), "sym-alpha")
    \cup If(u = "PUNCT" /\ SomeAlpha(w[x].f), "punct-alpha")
    \cup If(u = "PUNCT" /\ d \notin {"punct", "fixed", "goeswith", "root"}, "punct-deprel")
    \cup If(u = "PUNCT" /\ NonProj(w, x), "punct-nonproj")
    \cup If(u = "PUNCT" /\ InGap(w, x) /\ ~(h # 0 /\ InGap(w, h)), "punct-nonproj-gap")
\* What a goeswith word reports of the words before it: the first intruder, or all words with no space after
Before(w, x) ==
    LET h == w[x].h wrong == {i \in (h + 1)..(x - 1) : Uni(w[i].d) # "goeswith"} IN
    IF ~(Uni(w[x].d) = "goeswith" /\ h < x) THEN {}
    ELSE IF wrong # {} THEN {<<Min(wrong), "goeswith-gap">>}
    ELSE {<<i, "goeswith-space">> : i \in {j \in h..(x - 1) : j > 0 /\ w[j].sp}}
\* Reports as pairs <<word, what>> for every word which gives rise to it
Reports(w, lang) == [x \in 1..Len(w) |-> {<<x, n>> : n \in Own(w, x, lang)} \cup Before(w, x)]
Wanted(n, o) == (o.tests = "" \/ \E t \in SetOf(Split(o.tests, "|")) : HasSub(n, t)) /\ ~(o.skip # "" /\ \E t \in SetOf(Split(o.skip, "|")) : HasSub(n, t))
\* What is found at x, cop: is its lemma not one of the usual ones?
Found(w, x, o, cop) ==
    LET R == Reports(w, o.lang) IN
    {n \in {r[2] : r \in {y \in UNION {R[i] : i \in 1..Len(w)} : y[1] = x}} \cup If(cop, "cop-many-lemmas") : Wanted(n, o)}
LemmaOf(x) == IF x.l # "_" THEN x.l ELSE x.f
Split0(s, c) == IF s = "" THEN <<>> ELSE Split(s, c)
Names0(s, c) == SetOf(Split0(s, c))
\* The attribute b with what is found
AddedTo(b, F, v, c) == Names0(v, c) = Names0(b, c) \cup F /\ Len(Split0(v, c)) = Len(Split0(b, c)) + Cardinality(F \ Names0(b, c)) /\ StartsWith(v, b)
\* The most frequent lemmas of copulas: any choice
Tops(q, n) == LET L == SetOf(q) num(l) == Cardinality({i \in 1..Len(q) : q[i] = l}) IN
              {T \in SUBSET L : Cardinality(T) = (IF Cardinality(L) < n THEN Cardinality(L) ELSE n) /\ \A a \in T, b \in L \ T : num(a) >= num(b)}
=============================================================================
