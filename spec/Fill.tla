--------------------------------- MODULE Fill ---------------------------------
(* Blocks which fill in what is missing: words of a text with other spaces,     *)
(* translations, lemmas, types of multiword expressions, fixed expressions.     *)
EXTENDS Str, SequencesExt, FiniteSetsExt

Low(s) == FoldLeft(LAMBDA a, i : a \o (LET k == Code(Ch(s, i)) IN IF k \in 65..90 THEN Ch(Ascii, k + 1) ELSE Ch(s, i)), "", [i \in 1..Len(s) |-> i])
Setof(q) == {q[i] : i \in 1..Len(q)}

(********************************** goeswith *********************************)
\* tokens: [f: form, sp: does a space follow, n: number of words; words]; texts as strings
NoSpaces(t) == ReplaceStr(t, " ", "")
Computed(tk) == FoldLeft(LAMBDA a, i : a \o tk[i].f \o (IF tk[i].sp /\ i < Len(tk) THEN " " ELSE ""), "", [i \in 1..Len(tk) |-> i])
Trimmed(t) == Join(SelectSeq(Split(t, " "), LAMBDA x : x # ""), " ")
Glued(tk) == FoldLeft(LAMBDA a, x : a \o x.f, "", tk)
\* Positions of what is not a space
Letters(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : Ch(t, i) # " ")
\* Does the text tell how to split?
Tells(tk, t) == t # Computed(tk) /\ NoSpaces(t) = Glued(tk)
\* For each token its parts in the text, and does a space or nothing follow
Pieces(tk, t) ==
    LET T == Trimmed(t) L == Letters(T)
        before(i) == FoldLeft(LAMBDA a, j : a + Len(tk[j].f), 0, [j \in 1..(i - 1) |-> j])
    IN [i \in 1..Len(tk) |-> LET z == L[before(i) + Len(tk[i].f)] IN
                             [p |-> Split(SubSeq(T, L[before(i) + 1], z), " "), sp |-> z = Len(T) \/ Ch(T, z + 1) = " "]]
\* Words after it: [f, le, u, x, h: number of the head, dl]; w: those before, k: number of words of each token
Gone(tk, t, w, keep) ==
    LET P == Pieces(tk, t)
        firstword(i) == 1 + FoldLeft(LAMBDA a, j : a + tk[j].n, 0, [j \in 1..(i - 1) |-> j])
        \* the new words of token i, heads are the old numbers and 0 - old number for goeswith
        of(i) == IF Len(P[i].p) = 1 THEN [j \in 1..tk[i].n |-> LET o == w[firstword(i) + j - 1] IN [o EXCEPT !.h = [old |-> TRUE, n |-> o.h]]]
                 ELSE LET o == w[firstword(i)] IN [j \in 1..Len(P[i].p) |->
                    IF j = 1 THEN [o EXCEPT !.f = P[i].p[1], !.le = IF keep THEN @ ELSE Low(P[i].p[1]), !.h = [old |-> TRUE, n |-> o.h]]
                    ELSE [f |-> P[i].p[j], le |-> IF keep THEN "_" ELSE P[i].p[j], u |-> o.u, x |-> o.x, h |-> [old |-> TRUE, n |-> firstword(i)], dl |-> "goeswith"]]
        all == FoldLeft(LAMBDA a, i : a \o of(i), <<>>, [i \in 1..Len(tk) |-> i])
        \* how many words are added before the old word k
        added(k) == FoldLeft(LAMBDA a, i : IF firstword(i) < k /\ Len(P[i].p) > 1 THEN a + Len(P[i].p) - 1 ELSE a, 0, [i \in 1..Len(tk) |-> i])
    IN [j \in 1..Len(all) |-> [all[j] EXCEPT !.h = IF @.n = 0 THEN 0 ELSE @.n + added(@.n)]]
\* The tokens after it
GoneTokens(tk, t) == LET P == Pieces(tk, t) IN
    FoldLeft(LAMBDA a, i : a \o [j \in 1..Len(P[i].p) |-> [f |-> P[i].p[j], sp |-> IF j < Len(P[i].p) THEN TRUE ELSE P[i].sp, n |-> IF Len(P[i].p) = 1 THEN tk[i].n ELSE 1]], <<>>, [i \in 1..Len(tk) |-> i])

(******************************* translations ********************************)
IsTranslation(c) == LET b == Split1(c, "=") IN Len(b) = 2 /\ Trimmed(b[1]) = "text_en"
Translation(t) == " text_en = " \o t
FirstAt(q, Is(_)) == LET I == {i \in 1..Len(q) : Is(q[i])} IN IF I = {} THEN 0 ELSE Min(I)
\* c: comments of a tree, t: its line of the file
Translated(c, t, over) ==
    LET k == FirstAt(c, IsTranslation) IN IF k = 0 THEN Append(c, Translation(t)) ELSE IF over THEN [c EXCEPT ![k] = Translation(t)] ELSE c
\* cs: comments of all trees
TranslatedAll(cs, lines, over) == [i \in 1..Len(cs) |-> IF i <= Len(lines) THEN Translated(cs[i], lines[i], over) ELSE cs[i]]

(*********************************** lemmas **********************************)
\* w: [f, le, u, ft: features as a function of some names]
Lets(w, F) == \A k \in DOMAIN F : w.ft[k] \in {"", F[k]}
Lemma(w) ==
    LET low == Low(w.f) IN
    IF w.le # "_" \/ w.f = "_" \/ w.ft.Typo = "Yes" THEN w.le
    ELSE CASE w.u \in {"PUNCT", "SYM", "ADP", "CCONJ", "SCONJ", "PART", "INTJ", "X"} -> low
           [] w.u = "ADV" -> IF Lets(w, [Degree |-> "Pos", Polarity |-> "Pos"]) THEN low ELSE "_"
           [] w.u \in {"VERB", "AUX"} -> IF w.ft.VerbForm = "Inf" /\ Lets(w, [Polarity |-> "Pos"]) THEN low ELSE "_"
           [] w.u \in {"NOUN", "PROPN"} -> IF Lets(w, [Number |-> "Sing", Case |-> "Nom", Polarity |-> "Pos"]) THEN IF w.u = "NOUN" THEN low ELSE w.f ELSE "_"
           [] w.u \in {"ADJ", "PRON", "DET"} -> IF Lets(w, [Gender |-> "Masc", Number |-> "Sing", Case |-> "Nom"]) THEN low ELSE "_"
           [] w.u = "NUM" -> IF Lets(w, [Gender |-> "Masc", Case |-> "Nom"]) THEN low ELSE "_"
           [] OTHER -> "_"

(**************************** multiword expressions **************************)
\* a: for each word its annotations [k: number, t: type or ""]
Members(a, k) == {i \in 1..Len(a) : \E j \in 1..Len(a[i]) : a[i][j].k = k}
\* The type which is given last
TypeOf(a, k) == LET all == FoldLeft(LAMBDA q, x : q \o x, <<>>, a) q == SelectSeq(all, LAMBDA x : x.k = k /\ x.t # "") IN IF q = <<>> THEN "" ELSE q[Len(q)].t
Normalized(a) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> LET k == a[i][j].k IN [k |-> k, t |-> IF i = Min(Members(a, k)) THEN TypeOf(a, k) ELSE ""]]]
\* h: heads, dl: relations
Subtyped(a, h, dl) == [i \in 1..Len(a) |-> FoldLeft(LAMBDA d, x : LET t == Low(ReplaceStr(TypeOf(a, x.k), ".", "")) IN
                            IF h[i] # 0 /\ h[i] \in Members(a, x.k) /\ t # "" THEN d \o ":" \o t ELSE d, dl[i], a[i])]

(****************************** fixed expressions ****************************)
\* w: words [f, u, h, dl]; known: expressions
Uni(d) == Split1(d, ":")[1]
FixedOf(w, p) == {c \in 1..Len(w) : w[c].h = p /\ Uni(w[c].dl) = "fixed"}
Spread(w, p, What(_)) == LET F == FixedOf(w, p) IN Join([i \in 1..(Max(F) - p + 1) |-> IF i = 1 \/ (p + i - 1) \in F THEN What(w[p + i - 1]) ELSE "X"], " ")
Row(w, a, z, What(_)) == Join([i \in 1..(z - a + 1) |-> What(w[a + i - 1])], " ")
PrintedFor(w, p, known, forms) ==
    LET Small(x) == Low(x.f) Tag(x) == x.u
        longest == Max({2} \cup {Len(Split(e, " ")) : e \in known})
        ends == {z \in (p + 1)..Len(w) : z - p < longest /\ Row(w, p, z, Small) \in known}
    IN IF FixedOf(w, p) # {} THEN <<Spread(w, p, Small) \o (IF forms THEN "" ELSE " / " \o Spread(w, p, Tag) \o " / " \o w[p].dl)>>
       ELSE IF ends = {} THEN <<>>
       ELSE <<Row(w, p, Min(ends), Small) \o (IF forms THEN "" ELSE " / " \o Row(w, p, Min(ends), Tag) \o " / NOT FIXED")>>
Printed(w, known, forms) == FoldLeft(LAMBDA a, p : a \o PrintedFor(w, p, known, forms), <<>>, [p \in 1..Len(w) |-> p])
=============================================================================
