---------------------------- MODULE Contractions ----------------------------
(* ud.cs/ca/de/el/es/fr/la/pt.AddMwt: contractions divided into the words they *)
(* stand for.  A sentence is [w: words, tk: tokens].  A word is [k: name,        *)
(* -1 for a new one; h: name of the head or 0; f, l, u, x, d, fe: form, lemma,    *)
(* upos, xpos, deprel, features; mi: MISC as a sequence of attribute=value;       *)
(* t: number of the multiword token or 0], a token is [f, mi].                    *)
EXTENDS Str, SequencesExt, FiniteSetsExt

(********************************* letters ***********************************)
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
Small == "abcdefghijklmnopqrstuvwxyzàáâãäèéêěíóôõöüúůýčďňřšťž"
Large == "ABCDEFGHIJKLMNOPQRSTUVWXYZÀÁÂÃÄÈÉÊĚÍÓÔÕÖÜÚŮÝČĎŇŘŠŤŽ"
LowOf == [c \in Chars(Large) |-> Ch(Small, Find(Large, c))]
UpOf == [c \in Chars(Small) |-> Ch(Large, Find(Small, c))]
Lower(s) == FoldLeft(LAMBDA a, i : a \o (IF Ch(s, i) \in DOMAIN LowOf THEN LowOf[Ch(s, i)] ELSE Ch(s, i)), "", [i \in 1..Len(s) |-> i])
Upper(s) == FoldLeft(LAMBDA a, i : a \o (IF Ch(s, i) \in DOMAIN UpOf THEN UpOf[Ch(s, i)] ELSE Ch(s, i)), "", [i \in 1..Len(s) |-> i])
IsUpper(s) == s = Upper(s) /\ s # Lower(s)
Capital(s) == Upper(Ch(s, 1)) \o Lower(From(s, 2))
Capitalized(s) == s # "" /\ Ch(s, 1) # Lower(Ch(s, 1))
\* The case of the original form carries over to the words
Cased(q, f) == IF IsUpper(f) THEN [i \in 1..Len(q) |-> Upper(q[i])] ELSE IF Capitalized(f) THEN <<Capital(q[1])>> \o Tail(q) ELSE q

(*********************************** tables **********************************)
\* contraction, words, lemmas
German == << <<"am", "an dem", "an der">>, <<"ans", "an das", "an der">>, <<"aufs", "auf das", "auf der">>, <<"beim", "bei dem", "bei der">>,
    <<"durchs", "durch das", "durch der">>, <<"fürs", "für das", "für der">>, <<"hinterm", "hinter dem", "hinter der">>,
    <<"hinters", "hinter das", "hinter der">>, <<"im", "in dem", "in der">>, <<"ins", "in das", "in der">>, <<"übers", "über das", "über der">>,
    <<"ums", "um das", "um der">>, <<"unterm", "unter dem", "unter der">>, <<"unters", "unter das", "unter der">>, <<"vom", "von dem", "von der">>,
    <<"vorm", "vor dem", "vor der">>, <<"vors", "vor das", "vor der">>, <<"zum", "zu dem", "zu der">>, <<"zur", "zu der", "zu der">> >>
French == << <<"au", "à le", "à le">>, <<"aux", "à les", "à le">>, <<"des", "de les", "de le">>, <<"du", "de le", "de le">> >>
FrenchPron == << <<"auquel", "à lequel", "à lequel">>, <<"auxquels", "à lesquels", "à lequel">>, <<"auxquelles", "à lesquelles", "à lequel">>,
    <<"desquels", "de lesquels", "de lequel">>, <<"desquelles", "de lesquelles", "de lequel">>, <<"duquel", "de lequel", "de lequel">> >>
Art(g, n) == "_ Definite=Def|Gender=" \o g \o "|Number=" \o n \o "|PronType=Art"
\* and the features
Catalan == << <<"al", "a el", "a el", Art("Masc", "Sing")>>, <<"als", "a els", "a el", Art("Masc", "Plur")>>,
    <<"del", "de el", "de el", Art("Masc", "Sing")>>, <<"dels", "de els", "de el", Art("Masc", "Plur")>>,
    <<"pel", "per el", "per el", Art("Masc", "Sing")>>, <<"pels", "per els", "per el", Art("Masc", "Plur")>> >>
Spanish == << <<"al", "a el", "a el", Art("Masc", "Sing")>>, <<"del", "de el", "de el", Art("Masc", "Sing")>> >>
Acc(g, n) == "_ Case=Acc|Definite=Def|Gender=" \o g \o "|Number=" \o n \o "|PronType=Art"
Greek == << <<"στη", "σ τη", "σε ο", Acc("Fem", "Sing")>>, <<"στην", "σ την", "σε ο", Acc("Fem", "Sing")>>, <<"στα", "σ τα", "σε ο", Acc("Neut", "Plur")>>,
    <<"στους", "σ τους", "σε ο", Acc("Masc", "Plur")>>, <<"στις", "σ τις", "σε ο", Acc("Fem", "Plur")>>,
    <<"στον", "σ τον", "σε ο", Acc("Masc", "Sing")>>, <<"στο", "σ το", "σε ο", Acc("*", "Sing")>> >>
Cum(n) == "Case=Abl|Gender=" \o n \o " AdpType=Post|Clitic=Yes"
Latin == << <<"mecum", "me cum", "ego cum", Cum("Masc|Number=Sing")>>, <<"tecum", "te cum", "tu cum", Cum("Masc|Number=Sing")>>,
    <<"nobiscum", "nobis cum", "nos cum", Cum("Neut|Number=Plur")>>, <<"vobiscum", "vobis cum", "vos cum", Cum("Masc|Number=Plur")>>,
    <<"uobiscum", "uobis cum", "uos cum", Cum("Masc|Number=Plur")>>, <<"secum", "se cum", "sui cum", Cum("Masc")>> >>
Portuguese == << <<"à", "a a", "a o">>, <<"às", "a as", "a o">>, <<"ao", "a o", "a o">>, <<"aos", "a os", "a o">>,
    <<"da", "de a", "de o">>, <<"das", "de as", "de o">>, <<"dessa", "de essa", "de esse">>, <<"dessas", "de essas", "de esse">>,
    <<"desse", "de esse", "de esse">>, <<"desses", "de esses", "de esse">>, <<"desta", "de esta", "de este">>, <<"destas", "de estas", "de este">>,
    <<"deste", "de este", "de este">>, <<"destes", "de estes", "de este">>, <<"disso", "de isso", "de este">>, <<"disto", "de isto", "de este">>,
    <<"do", "de o", "de o">>, <<"dos", "de os", "de o">>, <<"dum", "de um", "de um">>, <<"duma", "de uma", "de um">>, <<"dumas", "de umas", "de um">>,
    <<"duns", "de uns", "de um">>, <<"na", "em a", "em o">>, <<"nas", "em as", "em o">>, <<"nesses", "em esses", "em esse">>,
    <<"nesta", "em esta", "em este">>, <<"neste", "em este", "em este">>, <<"nisso", "em isso", "em este">>,
    <<"no", "em o", "em o">>, <<"nos", "em os", "em o">>, <<"num", "em um", "em um">>, <<"numa", "em uma", "em um">>,
    <<"numas", "em umas", "em um">>, <<"nuns", "em uns", "em um">>, <<"pela", "por a", "por o">>, <<"pelas", "por as", "por o">>,
    <<"pelos", "por os", "por o">>, <<"pelo", "por o", "por o">> >>
PortuguesePron == << <<"dela", "de ela", "de ela">>, <<"dele", "de ele", "de ele">>, <<"deles", "de eles", "de eles">>, <<"delas", "de elas", "de elas">> >>
\* ending, person and number
By == << <<"ch", "bych", "Sing", "1">>, <<"s", "bys", "Sing", "2">>, <<"", "by", "", "">>, <<"chom", "bychom", "Plur", "1">>,
         <<"chme", "bychme", "Plur", "1">>, <<"ste", "byste", "Plur", "2">>, <<"šta", "byšta", "Dual", "3">> >>
ByFeats(b) == "_ Aspect=Imp|Mood=Cnd" \o (IF b[3] = "" THEN "" ELSE "|Number=" \o b[3] \o "|Person=" \o b[4]) \o "|VerbForm=Fin"
ByTag(b) == "J,------------- Vc-" \o (CASE b[3] = "Sing" -> "S" [] b[3] = "Plur" -> "P" [] OTHER -> "-") \o "---"
            \o (IF b[4] \in {"1", "2"} THEN b[4] ELSE "-") \o "-------"
Row(T, f) == SelectSeq(T, LAMBDA r : r[1] = f)

(********************************* analyses **********************************)
\* Words, lemmas, upos, xpos, features, deprels (space-separated; "": as they were resp. none, "*": as it was, "_": none),
\* number of the word which takes the place of the original one, and whether the others depend on it
An(f, l, u, x, fe, d, main, sub) == [f |-> f, l |-> l, u |-> u, x |-> x, fe |-> fe, d |-> d, main |-> main, sub |-> sub]
None == An("", "", "", "", "", "", 1, FALSE)
Uni(d) == Split1(d, ":")[1]
Pos(w, k) == CHOOSE i \in 1..Len(w) : w[i].k = k
Place(w, h) == IF h = 0 THEN 0 ELSE Pos(w, h)
Value(fe, n) == LET q == SelectSeq(Split(fe, "|"), LAMBDA y : StartsWith(y, n \o "=")) IN IF q = <<>> THEN "" ELSE From(q[1], Len(n) + 2)
FeatsWithout(fe, n) == IF fe = "" THEN "" ELSE Join(SelectSeq(Split(fe, "|"), LAMBDA y : ~StartsWith(y, n \o "=")), "|")
EndingOf(f, E) == LET q == SelectSeq(E, LAMBDA y : EndsWith(f, y) /\ Len(f) > Len(y)) IN IF q = <<>> THEN "" ELSE q[1]
Misc(x, n) == LET q == SelectSeq(x.mi, LAMBDA y : StartsWith(y, n \o "=")) IN IF q = <<>> THEN "" ELSE From(q[1], Len(n) + 2)

Verb(f, e, l, d) == An(SubSeq(f, 1, Len(f) - Len(e)) \o " " \o (IF StartsWith(e, "-") THEN From(e, 2) ELSE e), "* " \o l, "* PRON", "", "* _", d, 1, TRUE)
Pronoun(e) == CASE e \in {"se", "le", "la", "lo", "les", "los"} -> "él" [] e = "te" -> "tú" [] e = "me" -> "yo" [] OTHER -> ""
SpanishVerb(x) ==
    LET f == Lower(x.f) e == EndingOf(f, <<"me", "la", "le", "lo", "se", "te", "les", "los">>) vf == Value(x.fe, "VerbForm") IN
    IF e = "" \/ x.u \notin {"VERB", "AUX"} \/ vf = "Fin" \/ f = "pese" THEN None
    ELSE [Verb(f, e, Pronoun(e), "* iobj") EXCEPT !.fe = (IF vf = "" THEN "_" ELSE "VerbForm=" \o vf) \o " *"]
\* Old Czech pronouns after prepositions
OnStem(f) == LET q == SelectSeq(<<"na", "o", "pro", "přěde", "skrze", "skrzě", "skirze", "skirzě", "za">>,
                                 LAMBDA y : \E n \in {"n", "ň"} : f \in {y \o n, y \o n \o "ž"}) IN IF q = <<>> THEN "" ELSE q[1]
CzechOn(x) ==
    LET f == Lower(x.f) s == OnStem(f) rel == EndsWith(f, "ž") voc == s \notin {"na", "o", "pro", "za"}
        pl == CASE s = "přěde" -> "před" [] voc -> "skrz" [] OTHER -> s
        neut == Value(x.fe, "Gender") = "Neut" inan == ~neut /\ Value(x.fe, "Animacy") = "Inan"
        fe == "AdpType=" \o (IF voc THEN "Voc" ELSE "Prep") \o "|Case=Acc " \o (IF neut THEN "" ELSE IF inan THEN "Animacy=Inan|" ELSE "Animacy=Anim|")
              \o "Case=Acc|Gender=" \o (IF neut THEN "Neut" ELSE "Masc") \o "|Number=Sing" \o (IF rel THEN "" ELSE "|Person=3") \o "|PrepCase=Pre|PronType="
              \o (IF rel THEN "Rel" ELSE "Prs")
        g == IF neut THEN "N" ELSE IF inan THEN "I" ELSE "M"
    IN IF s = "" THEN None
       ELSE An((IF s = "přěde" THEN "přěd" ELSE s) \o (IF rel THEN " nějž" ELSE " něj"), pl \o (IF rel THEN " jenž" ELSE " on"), "ADP PRON",
               "R" \o (IF voc THEN "V" ELSE "R") \o "--4---------- P" \o (IF rel THEN "4" \o g \o "S4---------2" ELSE "E" \o g \o "S4--3-------"), fe, "case *", 2, TRUE)
Czech(x) ==
    LET f == Lower(x.f) m == Split(Misc(x, "AddMwt"), " ")
        by == SelectSeq(By, LAMBDA b : f \in {"aby" \o b[1], "kdyby" \o b[1]}) cj == IF StartsWith(f, "aby") THEN "aby" ELSE "když"
    IN CASE x.t # 0 -> None
         [] by # <<>> -> An(cj \o " " \o by[1][2], cj \o " být", "SCONJ AUX", ByTag(by[1]), ByFeats(by[1]), "* aux", 1, FALSE)
         [] f \in {"nač", "oč", "zač"} -> LET p == SubSeq(f, 1, Len(f) - 1) IN
                An(p \o " co", p \o " co", "ADP PRON", "RR--4---------- PQ--4----------", "AdpType=Prep|Case=Acc Animacy=Inan|Case=Acc|PronType=Int,Rel", "case *", 2, TRUE)
         [] by = <<>> /\ f \notin {"nač", "oč", "zač"} /\ Len(m) # 2 -> None
         [] OTHER ->
            CASE m[2] = "jsi" -> An(m[1] \o " jsi", "* být", "* AUX", "* VB-S---2P-AAI--",
                    "* Aspect=Imp|Mood=Ind|Number=Sing|Person=2|Polarity=Pos|Tense=Pres|VerbForm=Fin|Voice=Act", "* aux", 1, x.u = "VERB")
              [] m[2] = "i" -> An(m[1] \o " i", "* i", "* CCONJ", "* J^-------------", "* _", "* cc", 1, TRUE)
              [] m[2] \in {"ť", "tě", "ti"} -> IF m[1] \o m[2] # x.f THEN None
                    ELSE An(m[1] \o " " \o m[2], "* ť", "* PART", "* TT-------------", "* _", "* discourse", 1, TRUE)
              [] OTHER -> CzechOn(x)
\* The first dependent after the word
After(w, i) == SelectSeq([j \in 1..Len(w) |-> j], LAMBDA j : j > i /\ w[j].h = w[i].k)
Analysis(lang, s, i, verbpron) ==
    LET x == s.w[i] f == Lower(x.f)
        of(T) == Row(T, f)
        alone == Uni(x.d) \in {"root", "conj", "reparandum"}
    IN CASE lang = "de" -> IF of(German) = <<>> THEN None ELSE An(of(German)[1][2], of(German)[1][3], "ADP DET", "APPR ART", "_ *", "case det", 1, FALSE)
         [] lang = "fr" -> IF x.u # "ADP" THEN None
                           ELSE IF of(French) # <<>> THEN An(of(French)[1][2], of(French)[1][3], "ADP DET", "", "_ *", "case det", 1, TRUE)
                           ELSE IF of(FrenchPron) # <<>> THEN An(of(FrenchPron)[1][2], of(FrenchPron)[1][3], "ADP PRON", "", "_ *", "case *", 2, TRUE) ELSE None
         [] lang = "ca" -> IF of(Catalan) = <<>> THEN None ELSE LET r == of(Catalan)[1] IN An(r[2], r[3], "ADP DET", "", r[4], "* det", 1, alone)
         [] lang = "es" -> IF of(Spanish) # <<>> THEN LET r == of(Spanish)[1] IN An(r[2], r[3], "ADP DET", "", r[4], "* det", 1, alone)
                           ELSE IF verbpron THEN SpanishVerb(x) ELSE None
         [] lang = "el" -> IF of(Greek) = <<>> THEN None ELSE LET r == of(Greek)[1] g == Value(x.fe, "Gender") IN
                             An(r[2], r[3], "ADP DET", "AsPpSp AtDf", ReplaceStr(r[4], IF g = "" THEN "Gender=*|" ELSE "Gender=*", IF g = "" THEN "" ELSE "Gender=" \o g), "case det", 1, FALSE)
         [] lang = "la" -> IF of(Latin) # <<>> THEN LET r == of(Latin)[1] IN An(r[2], r[3], "PRON ADP", "", r[4], "obl case", 1, TRUE)
                           ELSE IF f = "nonne" THEN An("non ne", "non ne", "PART PART", "", "Polarity=Neg Clitic=Yes|PartType=Int", "advmod:neg discourse", 1, FALSE)
                           ELSE IF EndsWith(f, ".") /\ Len(f) > 1 /\ f # "..." THEN An(SubSeq(x.f, 1, Len(f) - 1) \o " .", "* .", "* PUNCT", "_ _", "* _", "* punct", 1, TRUE)
                           ELSE None
         [] lang = "cs" -> Czech(x)
         [] lang = "pt" ->
            IF f \in {"no", "nos"} /\ x.u = "PRON" THEN None
            ELSE IF of(PortuguesePron) # <<>> THEN LET r == of(PortuguesePron)[1] IN An(r[2], r[3], "ADP PRON", "", "", "case *", 2, TRUE)
            ELSE IF of(Portuguese) # <<>> THEN
                LET r == of(Portuguese)[1] c == After(s.w, i)
                    fixed == c # <<>> /\ Uni(s.w[c[1]].d) = "fixed"
                IN IF Uni(x.d) = "case" THEN An(r[2], r[3], "ADP DET", "", "_ *", "case det", 1, FALSE)
                   ELSE An(r[2], r[3], "ADP DET", "", "_ *", IF fixed THEN "* fixed" ELSE "* det", 1, TRUE)
            ELSE IF x.u # "VERB" THEN None
            ELSE LET e == EndingOf(f, <<"-se", "-lo", "-los", "-o">>)
                     v == Verb(f, e, CASE e = "-se" -> "se" [] e = "-los" -> "eles" [] OTHER -> "ele", IF e = "-se" THEN "* nsubj" ELSE "* obj")
                 IN IF e = "" THEN None ELSE v

(********************************** division *********************************)
\* Attribute number j of a word: what the analysis says, old values
Attr(a, j, old, main) == IF a = "" THEN (IF main THEN old ELSE "") ELSE LET v == Split(a, " ")[j] IN IF v = "*" THEN old ELSE IF v = "_" THEN "" ELSE v
Entity(mi) == SelectSeq(mi, LAMBDA y : StartsWith(y, "Entity="))
Name(y) == Split1(y, "=")[1]
Common(f) == f \in {"nač", "oč", "zač"} \/ \E n \in 1..Len(By) : f \in {"aby" \o By[n][1], "kdyby" \o By[n][1]}
Divide(lang, s, i, a) ==
    LET x == s.w[i] forms == Cased(Split(a.f, " "), x.f)
        \* the hint of an annotator is gone once it is used
        mi == IF lang = "cs" /\ ~Common(Lower(x.f)) THEN SelectSeq(x.mi, LAMBDA y : Name(y) # "AddMwt") ELSE x.mi
        t == IF x.t # 0 THEN x.t ELSE Len(s.tk) + 1
        rest == SelectSeq(mi, LAMBDA y : Name(y) # "Entity")
        oldfe == IF lang = "es" /\ x.u \in {"VERB", "AUX"} /\ Row(Spanish, Lower(x.f)) = <<>> THEN FeatsWithout(x.fe, "VerbForm") ELSE x.fe
        new == [j \in 1..Len(forms) |->
                  [k |-> IF j = a.main THEN x.k ELSE -1, h |-> IF j # a.main /\ a.sub THEN x.k ELSE x.h, f |-> forms[j],
                   l |-> Attr(a.l, j, x.l, j = a.main), u |-> Attr(a.u, j, x.u, j = a.main), x |-> Attr(a.x, j, x.x, j = a.main),
                   d |-> Attr(a.d, j, x.d, j = a.main), fe |-> Attr(a.fe, j, oldfe, j = a.main), mi |-> IF j = 1 THEN Entity(mi) ELSE <<>>, t |-> t]]
        tmi(o) == SelectSeq(rest, LAMBDA y : \A n \in 1..Len(o) : Name(o[n]) # Name(y)) \o o
    IN [w |-> SubSeq(s.w, 1, i - 1) \o new \o SubSeq(s.w, i + 1, Len(s.w)),
        tk |-> IF x.t # 0 THEN [s.tk EXCEPT ![t].mi = tmi(@)] ELSE Append(s.tk, [f |-> x.f, mi |-> rest])]

\* What is done with the words of the token then
RECURSIVE Descends(_, _, _)
Descends(w, j, k) == w[j].h # 0 /\ (w[j].h = k \/ Descends(w, Pos(w, w[j].h), k))
\* The last word below word i (new words are told apart by their place)
LastBelow(w, i) == Max({j \in 1..Len(w) : j # i /\ w[i].k # -1 /\ Descends(w, j, w[i].k)} \cup {0})
\* The noun above the next word which follows what it depends on, or the next word
RECURSIVE Noun(_, _, _)
Noun(w, j, next) == IF w[j].u \in {"NOUN", "PROPN"} THEN j ELSE IF Place(w, w[j].h) < j THEN next ELSE Noun(w, Place(w, w[j].h), next)
After1(lang, s, t) ==
    LET P == {i \in 1..Len(s.w) : s.w[i].t = t} a == Min(P) b == a + 1 w == s.w f == Lower(s.tk[t].f)
        to(k) == [s EXCEPT !.w[b].h = k]
        pa == Place(w, w[a].h) pb == Place(w, w[b].h)
    IN CASE lang = "es" -> IF f \in {"al", "del"} /\ pb < b /\ b < Len(w) THEN to(w[Noun(w, b + 1, b + 1)].k) ELSE s
         [] lang = "cs" -> IF w[a].d = "fixed" /\ pa # 0 /\ w[pa].h # 0 /\ w[Place(w, w[pa].h)].u = "VERB" THEN to(w[pa].h) ELSE s
         [] lang = "fr" ->
            LET s1 == IF f \notin {"du", "des", "au", "aux"} \/ LastBelow(w, a) # b THEN s
                      ELSE IF pa > a THEN to(w[a].h) ELSE IF b = Len(w) THEN s ELSE to(w[Noun(w, b + 1, b + 1)].k)
                v == s1.w
                s2 == IF v[b].h = v[a].k /\ v[LastBelow(v, a)].d = "fixed" THEN [s1 EXCEPT !.w[b].d = "fixed"] ELSE s1
            IN IF pa < a /\ a > 1 /\ Uni(v[a - 1].d) \in {"case", "fixed"} THEN [s2 EXCEPT !.w[a].d = "fixed"] ELSE s2
         [] OTHER -> s
RECURSIVE Divided(_, _, _, _)
Divided(lang, s, i, verbpron) ==
    IF i > Len(s.w) THEN s
    ELSE IF s.w[i].k = -1 \/ Analysis(lang, s, i, verbpron).f = "" THEN Divided(lang, s, i + 1, verbpron)
    ELSE LET a == Analysis(lang, s, i, verbpron) r == Divide(lang, s, i, a) IN
         Divided(lang, After1(lang, r, r.w[i].t), i + Len(Split(a.f, " ")), verbpron)
\* Tokens numbered by their place, their MISC attributes without an order
Canon(s) ==
    LET order == FoldLeft(LAMBDA q, x : IF x.t = 0 \/ \E i \in 1..Len(q) : q[i] = x.t THEN q ELSE Append(q, x.t), <<>>, s.w)
        num(t) == IF t = 0 THEN 0 ELSE CHOOSE i \in 1..Len(order) : order[i] = t
        set(q) == {q[i] : i \in 1..Len(q)}
    IN [w |-> [i \in 1..Len(s.w) |-> [s.w[i] EXCEPT !.t = num(@), !.mi = set(@)]], tk |-> [i \in 1..Len(order) |-> [f |-> s.tk[order[i]].f, mi |-> set(s.tk[order[i]].mi)]]]
=============================================================================
