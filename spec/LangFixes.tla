------------------------------ MODULE LangFixes ------------------------------
(* Blocks which repair trees of one language.  A sentence is a sequence of words *)
(* [k: name, -1 for a new one; h: name of the head or 0; f, l, u, x, d: form,     *)
(* lemma, upos, xpos, deprel; fe, mi: features and MISC, sets of attribute=value;  *)
(* ed: enhanced dependencies, a sequence of [h, d]].                              *)
EXTENDS Str, SequencesExt, FiniteSetsExt

Uni(d) == Split1(d, ":")[1]
Pos(w, k) == CHOOSE i \in 1..Len(w) : w[i].k = k
\* Attribute=value sets
Name(y) == Split1(y, "=")[1]
Get(S, n) == LET q == {y \in S : Name(y) = n} IN IF q = {} THEN "" ELSE From(CHOOSE y \in q : TRUE, Len(n) + 2)
Del(S, n) == {y \in S : Name(y) # n}
Set(S, n, v) == IF v = "" THEN Del(S, n) ELSE Del(S, n) \cup {n \o "=" \o v}
Children(w, k) == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : w[i].h = k)
Lift(w, K, h) == [i \in 1..Len(w) |-> IF w[i].k \in K THEN [w[i] EXCEPT !.h = h] ELSE w[i]]
RECURSIVE Under(_, _, _)
\* Is the word k below the word a?
Under(w, k, a) == LET h == w[Pos(w, k)].h IN h # 0 /\ (h = a \/ Under(w, h, a))
LowerDigits == "abcdefghijklmnopqrstuvwxyz"
UpperDigits == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Low(s) == FoldLeft(LAMBDA a, i : a \o (LET p == Find(UpperDigits, Ch(s, i)) IN IF p > 0 THEN Ch(LowerDigits, p) ELSE Ch(s, i)), "", [i \in 1..Len(s) |-> i])
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
Letters == Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_áéíóúñüč")

(****************************** he, ro: FixNeg *******************************)
HeNeg(w, i) ==
    IF w[i].d # "neg" \/ Get(w[i].fe, "VerbType") # "Cop" THEN w
    ELSE [w EXCEPT ![i] = [@ EXCEPT !.u = "AUX", !.d = "cop", !.fe = Del(@, "VerbType"), !.mi = @ \ {"ToDo=neg"}]]
RoNeg(w, i) ==
    IF w[i].d # "neg" THEN w
    ELSE [w EXCEPT ![i] = [@ EXCEPT !.fe = IF w[i].u = "PRON" /\ w[i].f = "ne" THEN {"Polarity=Neg"} ELSE @, !.u = "ADV", !.d = "advmod"]]

(************************** es: FixExclamation *******************************)
Marks == {"¡", "!"}
Sign(c, h, mi) == [k |-> -1, h |-> h, f |-> c, l |-> c, u |-> "PUNCT", x |-> IF c = "¡" THEN "faa" ELSE "fat", d |-> "punct",
                   fe |-> {"PunctSide=" \o (IF c = "¡" THEN "Ini" ELSE "Fin"), "PunctType=Excl"}, mi |-> mi, ed |-> <<>>]
Exclamation(x) ==
    LET n == Len(x.f)
        ini == n > 1 /\ Ch(x.f, 1) \in Marks /\ Ch(x.f, 2) \in Letters
        y == IF ini THEN [x EXCEPT !.f = From(@, 2), !.mi = Set(@, "Mark", "PunctSep")] ELSE x
        m == Len(y.f)
        fin == m > 1 /\ Ch(y.f, m) \in Marks /\ Ch(y.f, m - 1) \in Letters
        z == IF fin THEN [y EXCEPT !.f = SubSeq(@, 1, m - 1), !.mi = Set(Set(@, "Mark", "PunctSep"), "SpaceAfter", "No")] ELSE y
    IN (IF ini THEN <<Sign(Ch(x.f, 1), x.k, {"SpaceAfter=No"})>> ELSE <<>>) \o <<z>>
       \o (IF fin THEN <<Sign(Ch(y.f, m), x.k, Set({}, "SpaceAfter", Get(y.mi, "SpaceAfter")))>> ELSE <<>>)
Exclamations(w) == FlattenSeq([i \in 1..Len(w) |-> Exclamation(w[i])])

(***************************** es: FixTenerQue *******************************)
\* A new head in the tree and in the enhanced graph, where the same relation is replaced
Reattach(w, i, h, d) ==
    LET x == w[i] rest == SelectSeq(x.ed, LAMBDA e : e.h # x.h \/ Uni(e.d) # Uni(x.d)) IN
    [w EXCEPT ![i] = [@ EXCEPT !.h = h, !.d = d, !.ed = IF Len(rest) < Len(@) THEN Append(rest, [h |-> h, d |-> d]) ELSE @]]
Lower2 == {"obj", "iobj", "obl", "ccomp", "xcomp", "conj", "list", "compound", "flat", "fixed", "goeswith", "reparandum"}
Tener(w, i) ==
    IF w[i].l \notin {"tener", "ir"} \/ w[i].u # "AUX" THEN w
    ELSE LET v == [w EXCEPT ![i].u = "VERB"] IN
         IF Uni(w[i].d) # "aux" THEN v
         ELSE LET m == Pos(w, w[i].h)
                  a == Reattach(v, i, v[m].h, v[m].d)
                  b == Reattach(a, m, a[i].k, "xcomp")
                  c == FoldLeft(LAMBDA z, j : IF Uni(z[j].d) \in Lower2 THEN z ELSE Reattach(z, j, z[i].k, z[j].d), b, Children(b, b[m].k))
              IN FoldLeft(LAMBDA z, j : IF Low(z[j].f) \in {"que", "a"} /\ j > i /\ j < m THEN Reattach(z, j, z[m].k, "mark") ELSE z, c, Children(c, c[i].k))

(********************************* ga: To2 ***********************************)
GaTo2(w, i) ==
    LET x == w[i]
        f1 == IF Get(x.fe, "Case") = "Com" THEN Set(x.fe, "Case", "NomAcc") ELSE x.fe
        f2 == IF Get(f1, "Form") # "Emph" THEN f1 ELSE IF x.u \in {"PRON", "ADP"} THEN Set(Del(f1, "Form"), "PronType", "Emp") ELSE Set(f1, "Form", "Emp")
        f3 == IF x.x = "Abr" THEN Set(f2, "Abbr", "Yes") ELSE IF x.x = "Foreign" THEN Set(f2, "Foreign", "Yes") ELSE f2
        ag == i > 1 /\ w[i - 1].l = "ag" /\ w[i - 1].h = x.k
        f4 == IF Get(f3, "VerbForm") \in {"Inf", "Vnoun", "Ger"} THEN Set(f3, "VerbForm", IF ag THEN "Vnoun" ELSE "Inf") ELSE f3
    IN [w EXCEPT ![i] = [@ EXCEPT !.fe = f4, !.u = IF x.x = "Cop" THEN "AUX" ELSE @,
                                  !.d = CASE @ = "nmod:prep" -> "obl:prep" [] @ = "nmod:tmod" -> "obl:tmod" [] OTHER -> @,
                                  !.mi = IF ContainsStr(Get(@, "ToDo"), "nmod") THEN Del(@, "ToDo") ELSE @]]

(********************************* gl: To2 ***********************************)
Rank(u) == CASE u = "NOUN" -> 10 [] u = "PRON" -> 9 [] u \in {"ADJ", "VERB"} -> 8 [] u = "PUNCT" -> -10 [] OTHER -> 0
\* The best dependent takes the place of the word above it, the others follow
Yield(w, i) ==
    LET q == Children(w, w[i].k)
        best == q[CHOOSE a \in 1..Len(q) : \A b \in 1..Len(q) : Rank(w[q[a]].u) > Rank(w[q[b]].u) \/ (Rank(w[q[a]].u) = Rank(w[q[b]].u) /\ a <= b)]
    IN [j \in 1..Len(w) |-> IF j = best THEN [w[j] EXCEPT !.h = w[i].h] ELSE IF j = i \/ w[j].h = w[i].k THEN [w[j] EXCEPT !.h = w[best].k] ELSE w[j]]
GlTo2(w, i) ==
    LET c == IF w[i].h = 0 THEN 0 ELSE Pos(w, w[i].h)
        a == IF w[i].d # "cop" THEN w
             ELSE IF c # 0 /\ w[c].l \in {"ser", "estar"}
             THEN [j \in 1..Len(w) |-> IF j = i THEN [w[j] EXCEPT !.h = w[c].h, !.d = w[c].d] ELSE IF j = c THEN [w[j] EXCEPT !.h = w[i].k, !.d = "cop"]
                                       ELSE IF w[j].h = w[c].k THEN [w[j] EXCEPT !.h = w[i].k] ELSE w[j]]
             ELSE [w EXCEPT ![i].d = "xcomp"]
        some(v) == Children(v, v[i].k) # <<>>
        b == IF a[i].d # "case" \/ ~some(a) THEN a
             ELSE IF a[i].u \notin {"ADP", "CONJ", "PART"} THEN [a EXCEPT ![i].mi = Set(@, "ToDo", "case-upos")] ELSE Yield(a, i)
    IN IF b[i].d = "punct" /\ some(b) /\ b[i].u = "PUNCT" THEN Yield(b, i) ELSE b

(******************************* ru: FixToEst ********************************)
ToEst(w, i) ==
    IF Uni(w[i].d) # "mark" \/ w[i].l # "то" \/ ~\E j \in 1..Len(w) : w[j].h = w[i].k /\ Uni(w[j].d) = "fixed" /\ w[j].l = "быть" THEN w
    ELSE [w EXCEPT ![i] = [@ EXCEPT !.d = "cc", !.ed = Append(SelectSeq(@, LAMBDA e : e.h # w[i].h), [h |-> w[i].h, d |-> "cc"])]]

(*************************** bg: RemoveDotAfterAbbr **************************)
DotRemoved(w, tx) ==
    LET n == Len(w) IN
    IF n < 2 THEN w
    ELSE IF w[n].f # "." \/ ~EndsWith(w[n - 1].f, ".") \/ tx = "" \/ EndsWith(tx, "..") \/ EndsWith(tx, ". .") THEN w
    ELSE LET z == w[n] v == SubSeq(w, 1, n - 1) IN Lift(v, {x.k : x \in {v[i] : i \in {i \in 1..(n - 1) : v[i].h = z.k}}}, z.h)

(*************************** kk, ug: FixSpuriousAux **************************)
Uyghur == {"بەر", "بار", "چىق", "چىقىش", "يۈر", "ئولتۇر", "باق", "ئۆت", "_", "كۆرۈش", "باشلى", "يەت", "قايت", "چۈش", "قىل", "چاپ", "قورق", "كەلتۈر", "كىر"}
Kazakh == {"баста", "кет"}
Clausal == {"nsubj", "csubj", "obl", "advmod", "advcl", "vocative", "discourse", "parataxis", "punct"}
Spurious(w, i, kk) ==
    IF Uni(w[i].d) # "aux" \/ (kk /\ w[i].u # "AUX") \/ w[i].l \notin (IF kk THEN Kazakh ELSE Uyghur) THEN w
    ELSE LET m == Pos(w, w[i].h) IN
         [j \in 1..Len(w) |-> IF j = i THEN [w[j] EXCEPT !.u = "VERB", !.h = w[m].h, !.d = w[m].d]
                              ELSE IF j = m THEN [w[j] EXCEPT !.h = w[i].k, !.d = "xcomp"]
                              ELSE IF w[j].h = w[m].k /\ Uni(w[j].d) \in Clausal THEN [w[j] EXCEPT !.h = w[i].k] ELSE w[j]]

(*************************** es, ca: ElQue (fix=1) ***************************)
\* A new head and, if there is exactly one enhanced dependency, the same there; no new deprel if it is ""
Attach(w, i, h, d) ==
    [w EXCEPT ![i] = [@ EXCEPT !.h = h, !.d = IF d = "" THEN @ ELSE d,
                               !.ed = IF Len(@) # 1 THEN @ ELSE <<[h |-> h, d |-> IF d = "" THEN @[1].d ELSE d]>>]]
\* The word before el which governs it: a preposition (or the head of a fixed one); 0 if there is none
Prep(w, e) == IF e = 1 \/ w[e - 1].u # "ADP" THEN 0 ELSE IF Uni(w[e - 1].d) # "fixed" THEN e - 1 ELSE IF w[e - 1].h = 0 THEN 0 ELSE Pos(w, w[e - 1].h)
Relative(w, i, ca) == w[i].u = "PRON" /\ w[i].l \in (IF ca THEN {"que"} ELSE {"que", "cual"}) /\ w[i].h # 0 /\ Pos(w, w[i].h) > i /\ i > 1 /\ w[i - 1].l = "el"
ElDeprel(d) == CASE Uni(d) \in {"nsubj", "csubj"} -> "nsubj" [] Uni(d) = "ccomp" -> "obj" [] Uni(d) = "advcl" -> "obl" [] Uni(d) = "acl" -> "nmod"
                 [] Uni(d) \in {"xcomp", "conj", "appos", "root"} -> d [] OTHER -> ""
\* Not promised: articles or clauses which depend on words moved below them
Unclear(w, i, ca) ==
    Relative(w, i, ca) /\
    LET e == i - 1 v == Pos(w, w[i].h) p == Prep(w, e) el == w[e].k IN
    \/ p # 0 /\ (Under(w, el, w[p].k) \/ p \in {i, v})
    \/ Under(w, w[v].k, el) \/ w[v].h = 0 \/ (e > 1 /\ w[e - 1].u = "ADP" /\ Uni(w[e - 1].d) = "fixed" /\ w[e - 1].h = 0)
ElQue(w, i, ca) ==
    IF ~Relative(w, i, ca) THEN w
    ELSE LET e == i - 1 v == Pos(w, w[i].h) p == Prep(w, e) el == w[e].k
             a == IF p # 0 THEN (IF w[p].h \in {w[i].k, w[v].k} THEN Attach(w, p, el, "case") ELSE w) ELSE w
             b == IF a[e].h = a[i].k THEN Attach(a, e, a[v].k, "") ELSE a
             d == ElDeprel(b[v].d)
             up == (p = 0 \/ b[v].h # b[p].k) /\ b[v].h \notin {el, b[i].k} /\ d # ""
             c == Attach(Attach(b, e, b[v].h, d), v, el, "acl:relcl")
         IN IF ~up THEN b
            ELSE FoldLeft(LAMBDA z, j : IF j < e /\ Uni(z[j].d) \in {"cc", "mark", "case", "punct"} THEN Attach(z, j, el, "") ELSE z, c, Children(c, c[v].k))

(***************************** es: FixVerbFeats ******************************)
EndsIn(f, E) == \E y \in E : EndsWith(f, y)
Stems == {"ad", "id", "biert", "dich", "fech", "hech", "muert", "puest", "vist"}
Endings == {"o", "a", "os", "as"}
Participle(f) == \E s \in Stems, e \in Endings : EndsWith(f, s \o e)
VerbFeats(w, i) ==
    LET f == Low(w[i].f) x == w[i]
        gender == IF Get(x.fe, "Gender") # "" THEN Get(x.fe, "Gender") ELSE IF EndsIn(f, {"o", "os"}) THEN "Masc" ELSE "Fem"
        number == IF Get(x.fe, "Number") # "" THEN Get(x.fe, "Number") ELSE IF EndsWith(f, "s") THEN "Plur" ELSE "Sing"
        cut == SubSeq(f, 1, Len(f) - (IF EndsWith(f, "s") THEN 3 ELSE 2)) \o "r"
    IN IF x.u \notin {"VERB", "AUX"} THEN w
       ELSE IF EndsIn(f, {"ar", "er", "ir"}) THEN [w EXCEPT ![i] = [@ EXCEPT !.fe = {"VerbForm=Inf"}, !.l = f]]
       ELSE IF EndsWith(f, "ndo") THEN (IF f = "entiendo" THEN w ELSE [w EXCEPT ![i].fe = {"VerbForm=Ger"}])
       ELSE IF Participle(f) THEN [w EXCEPT ![i] = [@ EXCEPT !.fe = {"VerbForm=Part", "Tense=Past", "Gender=" \o gender, "Number=" \o number},
                                                    !.l = IF \E e \in Endings : EndsWith(f, "ad" \o e) THEN cut ELSE @]]
       ELSE w

(***************************** pt: AddHyphenMwt ******************************)
Alnum(f) == f # "" /\ Chars(f) \subseteq (Letters \ {"_"}) /\ Low(f) # "al"
\* The last word of the compound with hyphens whose first hyphen is word i; 0 if there is none
RECURSIVE CompoundEnd(_, _)
CompoundEnd(w, i) ==
    IF i >= Len(w) \/ w[i].f # "-" \/ ~Alnum(w[i - 1].f) \/ ~Alnum(w[i + 1].f) THEN 0
    ELSE LET more == IF i + 3 <= Len(w) /\ w[i + 2].f = "-" /\ Alnum(w[i + 3].f) THEN CompoundEnd(w, i + 2) ELSE 0 IN IF more > 0 THEN more ELSE i + 1
RECURSIVE Hyphens(_, _)
\* Compounds [a, b]: first and last word
Hyphens(w, i) == IF i >= Len(w) THEN <<>> ELSE LET z == CompoundEnd(w, i) IN IF z = 0 THEN Hyphens(w, i + 1) ELSE <<[a |-> i - 1, b |-> z]>> \o Hyphens(w, z)
\* What to do with a compound: words with a mark in MISC, or a token
Judge(w, c) ==
    LET C == c.a..c.b K == {w[i].k : i \in C}
        heads == {i \in C : w[i].h \notin K}
        bad == {i \in C \ heads : \E j \in 1..Len(w) : w[j].h = w[i].k /\ j \notin C}
    IN [multi |-> Cardinality(heads) > 1, heads |-> heads, bad |-> bad, ok |-> Cardinality(heads) = 1 /\ bad = {}]
HyphenWords(w) ==
    LET Q == Hyphens(w, 2) J == [n \in 1..Len(Q) |-> Judge(w, Q[n])]
        mark(i) == LET n == {n \in 1..Len(Q) : i \in Q[n].a..Q[n].b} IN
                   IF n = {} THEN "" ELSE LET j == J[Max(n)] IN
                   IF j.multi THEN (IF i \in j.heads THEN "NonCatenaCompound" ELSE "") ELSE IF i \in j.bad THEN "HasChildrenOutsideCompound" ELSE ""
        gone(i) == w[i].f = "-" /\ \E n \in 1..Len(Q) : i \in Q[n].a..Q[n].b /\ J[n].ok
        keep == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : ~gone(i))
        tok(i) == LET n == {n \in 1..Len(Q) : i \in Q[n].a..Q[n].b /\ J[n].ok} IN
                  IF n = {} THEN "" ELSE LET q == Q[Max(n)] IN FoldLeft(LAMBDA s, j : s \o w[j].f, "", [j \in 1..(q.b - q.a + 1) |-> q.a + j - 1])
    IN [w |-> [j \in 1..Len(keep) |-> LET i == keep[j] IN IF mark(i) = "" THEN w[i] ELSE [w[i] EXCEPT !.mi = Set(@, "ToDo", mark(i))]],
        t |-> [j \in 1..Len(keep) |-> tok(keep[j])], any |-> \E n \in 1..Len(J) : J[n].ok]

(*********************************** blocks **********************************)
Step(b, w, i) ==
    CASE b = "he.neg" -> HeNeg(w, i) [] b = "ro.neg" -> RoNeg(w, i) [] b = "es.tener" -> Tener(w, i) [] b = "ga.to2" -> GaTo2(w, i)
      [] b = "gl.to2" -> GlTo2(w, i) [] b = "ru.toest" -> ToEst(w, i) [] b = "kk.aux" -> Spurious(w, i, TRUE) [] b = "ug.aux" -> Spurious(w, i, FALSE)
      [] b = "es.elque" -> ElQue(w, i, FALSE) [] b = "ca.elque" -> ElQue(w, i, TRUE) [] b = "es.feats" -> VerbFeats(w, i)
\* Words one after another, each as it was left by the ones before
RECURSIVE Through(_, _, _)
Through(b, w, i) == IF i > Len(w) THEN w ELSE Through(b, Step(b, w, i), i + 1)
Fixed(b, w, tx) == CASE b = "es.excl" -> Exclamations(w) [] b = "bg.dot" -> DotRemoved(w, tx) [] b = "pt.hyphen" -> HyphenWords(w).w [] OTHER -> Through(b, w, 1)
\* Cases about which nothing is promised
RECURSIVE Clear(_, _, _)
NotAux(w) == \A i \in 1..Len(w) : Uni(w[i].d) = "aux" => w[i].h # 0
Clear(b, w, i) ==
    CASE b \in {"es.tener", "kk.aux", "ug.aux"} -> IF i > Len(w) \/ ~NotAux(w) THEN NotAux(w) ELSE Clear(b, Step(b, w, i), i + 1)
      [] b \in {"es.elque", "ca.elque"} -> IF i > Len(w) THEN TRUE ELSE IF Unclear(w, i, b = "ca.elque") THEN FALSE ELSE Clear(b, Step(b, w, i), i + 1)
      [] b = "pt.hyphen" -> \A i2 \in 1..Len(w) : w[i2].f = "-" => ~\E j \in 1..Len(w) : w[j].h = w[i2].k
      [] OTHER -> TRUE
=============================================================================
