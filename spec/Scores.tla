------------------------------- MODULE Scores -------------------------------
(* Scores of trees compared with gold trees (eval.Parsing, eval.F1,           *)
(* eval.Conll17, eval.Conll18).  Words are those of Select with x: XPOS and    *)
(* fe: a sequence of features [k, v].  v: the words predicted, w: gold ones.   *)
EXTENDS Select

Universal(d) == Split1(d, ":")[1]
Low(x) == LowerCodes(x.f)
(********************************** Parsing **********************************)
Parsing(v, w) ==
    LET U == {i \in 1..Len(v) : Place(v, i) = Place(w, i)} IN
    [n |-> Len(v), uas |-> Cardinality(U), las |-> Cardinality({i \in U : v[i].d = w[i].d}),
     ulas |-> Cardinality({i \in U : Universal(v[i].d) = Universal(w[i].d)})]

(************************** longest common subsequences **********************)
\* Lengths for all prefixes of a and b
LcsTable(a, b) ==
    LET cell[i \in 0..Len(a), j \in 0..Len(b)] ==
            IF i = 0 \/ j = 0 THEN 0
            ELSE IF a[i] = b[j] THEN cell[i - 1, j - 1] + 1
            ELSE IF cell[i - 1, j] > cell[i, j - 1] THEN cell[i - 1, j] ELSE cell[i, j - 1]
    IN cell
LcsLen(a, b) == LcsTable(a, b)[Len(a), Len(b)]
\* All of them
Lcs(a, b) ==
    LET t == LcsTable(a, b)
        all[i \in 0..Len(a), j \in 0..Len(b)] ==
            IF t[i, j] = 0 THEN {<<>>}
            ELSE IF a[i] = b[j] THEN {Append(s, a[i]) : s \in all[i - 1, j - 1]}
            ELSE (IF t[i - 1, j] = t[i, j] THEN all[i - 1, j] ELSE {}) \cup (IF t[i, j - 1] = t[i, j] THEN all[i, j - 1] ELSE {})
    IN all[Len(a), Len(b)]
\* The first places of c as a subsequence of a
RECURSIVE First(_, _, _)
First(c, a, from) == IF c = <<>> THEN <<>>
                     ELSE LET p == Min({i \in from..Len(a) : a[i] = c[1]}) IN <<p>> \o First(Tail(c), a, p + 1)
\* With a focus F (a set of tokens) words out of it are aligned first, then those between them; what can be aligned
Focused(a, b, F) ==
    LET out(q) == SelectSeq(q, LAMBDA x : x \notin F)
        in(q) == SelectSeq(q, LAMBDA x : x \in F)
        gaps(c) == LET p == First(c, a, 1) q == First(c, b, 1) n == Len(c)
                       lo(z, i) == IF i = 1 THEN 1 ELSE z[i - 1] + 1
                       hi(z, i, all) == IF i > n THEN Len(all) ELSE z[i] - 1
                   IN [i \in 1..(n + 1) |-> Lcs(in(SubSeq(a, lo(p, i), hi(p, i, a))), in(SubSeq(b, lo(q, i), hi(q, i, b))))]
        join(g) == FoldLeft(LAMBDA A, S : {x \o y : x \in A, y \in S}, {<<>>}, g)
    IN UNION {join(gaps(c)) : c \in Lcs(out(a), out(b))}
\* Possible sequences of correct tokens
Correct(a, b, F, all) == IF all THEN Lcs(a, b) ELSE Focused(a, b, F)

(****************************** CoNLL 2017 and 2018 **************************)
CONTENT == {"nsubj", "obj", "iobj", "csubj", "ccomp", "xcomp", "obl", "vocative", "expl", "dislocated", "advcl", "advmod", "discourse", "nmod", "appos", "nummod", "acl",
            "amod", "conj", "fixed", "flat", "compound", "list", "parataxis", "orphan", "goeswith", "reparandum", "root", "dep"}
FUNCTIONAL == {"aux", "cop", "mark", "det", "clf", "case", "cc"}
IGNORED == FUNCTIONAL \cup {"punct"}
UNIV == {"PronType", "NumType", "Poss", "Reflex", "Foreign", "Abbr", "Gender", "Animacy", "Number", "Case", "Definite", "Degree", "VerbForm", "Mood", "Tense", "Aspect",
         "Voice", "Evident", "Polarity", "Person", "Polite"}
Lowered(w) == [i \in 1..Len(w) |-> [w[i] EXCEPT !.f = LowerCodes(@)]]
Aligned(v, w) == Matched(Lowered(v), Lowered(w), <<"form">>, 1, Len(v), 1, Len(w))
SameHead(v, w, A, x) == <<Place(v, x[1]), Place(w, x[2])>> \in A \cup {<<0, 0>>}
SameU(a, b) == Universal(a.d) = Universal(b.d)
UFeats(x) == {f \in SetOf(x.fe) : f.k \in UNIV}
IsContent(x) == Universal(x.d) \in CONTENT
Func(w, i, all) == SetToSortSeq({j \in Kids(w, w[i].k) : Universal(w[j].d) \in FUNCTIONAL /\ (all \/ Get(w[j].mi, "Rehanged") = "")}, LAMBDA a, b : a < b)
\* Functional children are aligned and the same
Morpho(v, w, A, x) ==
    LET p == Func(v, x[1], FALSE) g == Func(w, x[2], TRUE) a == v[x[1]] b == w[x[2]] IN
    /\ a.u = b.u /\ UFeats(a) = UFeats(b) /\ Len(p) = Len(g)
    /\ \A i \in 1..Len(p) : LET c == v[p[i]] d == w[g[i]] IN <<p[i], g[i]>> \in A /\ SameU(c, d) /\ c.u = d.u /\ UFeats(c) = UFeats(d)
SameLemma(a, b) == b.l = "_" \/ a.l = b.l
Conll18(v, w) ==
    LET A == Aligned(v, w)
        a(x) == v[x[1]] b(x) == w[x[2]]
        U == {x \in A : SameHead(v, w, A, x) /\ Get(a(x).mi, "Rehanged") = ""}
        L == {x \in U : SameU(a(x), b(x))}
        C == {x \in L : IsContent(b(x))}
        size(P(_), S) == Cardinality({x \in S : P(x)})
    IN [pred |-> Len(v), gold |-> Len(w), Words |-> Cardinality(A),
        predc |-> Cardinality({i \in 1..Len(v) : IsContent(v[i])}), goldc |-> Cardinality({i \in 1..Len(w) : IsContent(w[i])}), aligc |-> size(LAMBDA x : IsContent(b(x)), A),
        UPOS |-> size(LAMBDA x : a(x).u = b(x).u, A), XPOS |-> size(LAMBDA x : a(x).x = b(x).x, A), UFeats |-> size(LAMBDA x : UFeats(a(x)) = UFeats(b(x)), A),
        AllTags |-> size(LAMBDA x : a(x).u = b(x).u /\ a(x).x = b(x).x /\ UFeats(a(x)) = UFeats(b(x)), A), Lemmas |-> size(LAMBDA x : SameLemma(a(x), b(x)), A),
        UAS |-> Cardinality(U), LAS |-> Cardinality(L), CLAS |-> Cardinality(C),
        MLAS |-> size(LAMBDA x : Morpho(v, w, A, x) /\ Get(a(x).mi, "FuncChildMissing") = "", C), BLEX |-> size(LAMBDA x : SameLemma(a(x), b(x)), C)]
Conll17(v, w) ==
    LET A == Aligned(v, w)
        a(x) == v[x[1]] b(x) == w[x[2]]
        U == {x \in A : SameHead(v, w, A, x)}
        L == {x \in U : SameU(a(x), b(x))}
        size(P(_), S) == Cardinality({x \in S : P(x)})
        clas(x) == Universal(x.d) \notin IGNORED
    IN [pred |-> Len(v), gold |-> Len(w), Words |-> Cardinality(A),
        predc |-> Cardinality({i \in 1..Len(v) : clas(v[i])}), goldc |-> Cardinality({i \in 1..Len(w) : clas(w[i])}), aligc |-> size(LAMBDA x : clas(b(x)), A),
        UPOS |-> size(LAMBDA x : a(x).u = b(x).u, A), XPOS |-> size(LAMBDA x : a(x).x = b(x).x, A), Feats |-> size(LAMBDA x : a(x).fe = b(x).fe, A),
        Lemma |-> size(LAMBDA x : a(x).l = b(x).l, A), UAS |-> Cardinality(U), LAS |-> Cardinality(L), CLAS |-> size(LAMBDA x : clas(b(x)), L)]
\* The first line of a metric counts content words only
ContentOnly == {"CLAS", "MLAS", "BLEX"}
Metrics(m) == IF m = "conll18" THEN <<"Words", "UPOS", "XPOS", "UFeats", "AllTags", "Lemmas", "UAS", "LAS", "CLAS", "MLAS", "BLEX">>
              ELSE <<"Words", "UPOS", "XPOS", "Feats", "Lemma", "UAS", "LAS", "CLAS">>
Pred(s, m) == IF m \in ContentOnly THEN s.predc ELSE s.pred
Gold(s, m) == IF m \in ContentOnly THEN s.goldc ELSE s.gold
Alig(s, m) == IF m \in ContentOnly THEN s.aligc ELSE s.Words
=============================================================================
