----------------------------- MODULE WordEdits -----------------------------
(* Blocks which join, split, add or remove words of a sentence                *)
(* [w: words, tk: tokens, tx], words and tokens as in Resegment.  New words    *)
(* have the key -1.                                                           *)
EXTENDS Resegment

Pos(w, k) == CHOOSE i \in 1..Len(w) : w[i].k = k
\* Tokens numbered by their place
Canon(s) ==
    LET order == FoldLeft(LAMBDA q, x : IF x.t = 0 \/ \E i \in 1..Len(q) : q[i] = x.t THEN q ELSE Append(q, x.t), <<>>, s.w)
        num(t) == IF t = 0 THEN 0 ELSE CHOOSE i \in 1..Len(order) : order[i] = t
    IN [w |-> [i \in 1..Len(s.w) |-> [s.w[i] EXCEPT !.t = num(@)]], tk |-> [i \in 1..Len(order) |-> s.tk[order[i]]]]
\* Delete the words with keys in D; their dependents go to the closest remaining word above
RECURSIVE Above(_, _, _)
Above(w, h, D) == IF h = 0 \/ h \notin D THEN h ELSE Above(w, w[Pos(w, h)].h, D)
Without(w, D) == [i \in 1..Len(SelectSeq(w, LAMBDA x : x.k \notin D)) |->
                    LET x == SelectSeq(w, LAMBDA y : y.k \notin D)[i] IN [x EXCEPT !.h = Above(w, @, D)]]

(******************************* ud.RemoveMwt ********************************)
FirstIn(w, i) == w[i].t # 0 /\ (i = 1 \/ w[i - 1].t # w[i].t)
RemoveMwt(s) ==
    LET D == {s.w[i].k : i \in {i \in 1..Len(s.w) : s.w[i].t # 0 /\ ~FirstIn(s.w, i)}}
        w == Without(s.w, D)
    IN [s EXCEPT !.w = [i \in 1..Len(w) |-> IF w[i].t = 0 THEN w[i] ELSE [w[i] EXCEPT !.f = s.tk[w[i].t].f, !.sp = s.tk[w[i].t].sp, !.t = 0, !.m = ""]]]

(******************************* ud.JoinToken ********************************)
RECURSIVE IsUnder(_, _, _)
IsUnder(w, k, x) == LET h == w[Pos(w, k)].h IN h # 0 /\ (h = x \/ IsUnder(w, h, x))
\* Join word i to the one before it
Join2(w, i) ==
    LET a == w[i - 1] b == w[i]
        a2 == IF IsUnder(w, a.k, b.k) THEN [a EXCEPT !.h = b.h, !.d = b.d] ELSE a
        v == [w EXCEPT ![i - 1] = [a2 EXCEPT !.f = @ \o b.f, !.sp = b.sp]]
        x == [j \in 1..Len(v) |-> IF v[j].h = b.k /\ j # i THEN [v[j] EXCEPT !.h = a.k] ELSE v[j]]
    IN SelectSeq(x, LAMBDA y : y.k # b.k)
RECURSIVE JoinTokens(_, _, _)
JoinTokens(w, i, v) ==
    IF i > Len(w) THEN w
    ELSE IF Marked(w[i], v) /\ i > 1 /\ w[i].t = 0 /\ w[i - 1].t = 0 /\ ~w[i - 1].sp THEN JoinTokens(Join2(w, i), i, v)
    ELSE JoinTokens(w, i + 1, v)

(******************************* ud.JoinAsMwt ********************************)
Alpha == Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZčČéß")
\* The last word of the run of word i
RECURSIVE RunEnd(_, _)
RunEnd(w, i) == IF i < Len(w) /\ ~w[i].sp /\ w[i + 1].t = 0 /\ Ch(w[i].f, Len(w[i].f)) \in Alpha /\ Ch(w[i + 1].f, 1) \in Alpha
                THEN RunEnd(w, i + 1) ELSE i
RECURSIVE JoinAsMwt(_, _, _)
\* m is the original form of a word
JoinAsMwt(s, i, revert) ==
    IF i > Len(s.w) THEN s
    ELSE LET e == RunEnd(s.w, i) IN
         IF s.w[i].t # 0 \/ e = i THEN JoinAsMwt(s, i + 1, revert)
         ELSE JoinAsMwt([s EXCEPT !.tk = Append(@, [f |-> FoldLeft(LAMBDA a, j : a \o s.w[i + j - 1].f, "", [j \in 1..(e - i + 1) |-> j]), sp |-> s.w[e].sp]),
                                  !.w = [j \in 1..Len(@) |-> IF j \notin i..e THEN @[j]
                                            ELSE [@[j] EXCEPT !.t = Len(s.tk) + 1, !.sp = TRUE,
                                                              !.f = IF revert /\ s.w[j].m # "" THEN s.w[j].m ELSE @,
                                                              !.m = IF revert THEN "" ELSE @]]], e + 1, revert)

(****************************** ud.FixMwtSpace *******************************)
FixSpace(s) ==
    LET forms(t) == Join([i \in 1..Len(SelectSeq(s.w, LAMBDA x : x.t = t)) |-> SelectSeq(s.w, LAMBDA x : x.t = t)[i].f], " ")
        D == {t \in 1..Len(s.tk) : ContainsStr(s.tk[t].f, " ") /\ s.tk[t].f = forms(t)}
        last(i) == i = Len(s.w) \/ s.w[i + 1].t # s.w[i].t
    IN [s EXCEPT !.w = [i \in 1..Len(@) |-> IF @[i].t \notin D THEN @[i]
                                            ELSE [@[i] EXCEPT !.sp = IF last(i) THEN s.tk[s.w[i].t].sp ELSE @, !.t = 0]]]

(************************** ud.SplitUnderscoreTokens *************************)
Fresh(f, h, d, sp) == [k |-> -1, h |-> h, d |-> d, f |-> f, sp |-> sp, t |-> 0, m |-> ""]
Closed == {"ADP", "AUX", "CCONJ", "DET", "PART", "PRON", "SCONJ"}
\* The deprel of new words: o.deprel always, else by the part of speech u
NewDeprel(u, o) == IF o.deprel # "" THEN o.deprel ELSE IF u = "PROPN" THEN "flat" ELSE IF u \in Closed THEN "fixed" ELSE o.default
\* l: the lemma; words whose lemma has other number of parts are left as they are
Divided(x, l, o) == x.f # "_" /\ ContainsStr(x.f, "_") /\ (o.lemma = "form" \/ Len(Split(x.f, "_")) = Len(Split(l, "_")))
SplitWord(x, u, l, o) ==
    IF ~Divided(x, l, o) THEN <<x>>
    ELSE LET p == Split(x.f, "_") IN
         [i \in 1..Len(p) |-> IF i = 1 THEN [x EXCEPT !.f = p[1], !.sp = TRUE] ELSE Fresh(p[i], x.k, NewDeprel(u, o), i < Len(p) \/ x.sp)]
\* o.u, o.l: parts of speech and lemmas of the words
SplitUnderscores(s, o) == [s EXCEPT !.w = FlattenSeq([i \in 1..Len(@) |-> SplitWord(@[i], o.u[i], o.l[i], o)])]
SplitLemmas(s, o) == FlattenSeq([i \in 1..Len(s.w) |-> IF ~Divided(s.w[i], o.l[i], o) THEN <<o.l[i]>>
                                                        ELSE Split(IF o.lemma = "form" THEN s.w[i].f ELSE o.l[i], "_")])
SplitUpos(s, o) == FlattenSeq([i \in 1..Len(s.w) |-> [j \in 1..Len(SplitWord(s.w[i], o.u[i], o.l[i], o)) |-> o.u[i]]])

(********************************* ud.AddMwt *********************************)
\* Words to be split: forms, the place of the main one, whether the others depend on it, and deprels ("*": the original one)
Analysis(f) ==
    CASE f \in {"xy", "Xy", "XY"} -> [f |-> IF f = "xy" THEN <<"x", "y">> ELSE IF f = "Xy" THEN <<"X", "y">> ELSE <<"X", "Y">>, main |-> 1, sub |-> FALSE, d |-> <<"*", "new">>]
      [] f = "pqr" -> [f |-> <<"p", "q", "r">>, main |-> 2, sub |-> TRUE, d |-> <<"aux", "*", "new">>]
      [] f = "zz" -> [f |-> <<"z", "z">>, main |-> 2, sub |-> FALSE, d |-> <<"*", "new">>]
      [] OTHER -> [f |-> <<>>, main |-> 0, sub |-> FALSE, d |-> <<>>]
AddAt(s, i) ==
    LET x == s.w[i] a == Analysis(x.f) t == IF x.t # 0 THEN x.t ELSE Len(s.tk) + 1
        d(j) == IF a.d[j] = "*" THEN x.d ELSE a.d[j]
        new == [j \in 1..Len(a.f) |-> IF j = a.main THEN [x EXCEPT !.f = a.f[j], !.d = d(j), !.sp = TRUE, !.t = t, !.m = ""]
                                      ELSE [Fresh(a.f[j], IF a.sub THEN x.k ELSE x.h, d(j), TRUE) EXCEPT !.t = t]]
    IN [s EXCEPT !.w = SubSeq(@, 1, i - 1) \o new \o SubSeq(@, i + 1, Len(@)),
                 !.tk = IF x.t # 0 THEN @ ELSE Append(@, [f |-> x.f, sp |-> x.sp])]
RECURSIVE AddMwts(_, _)
AddMwts(s, i) == IF i > Len(s.w) THEN s
                 ELSE IF s.w[i].k = -1 \/ Analysis(s.w[i].f).f = <<>> THEN AddMwts(s, i + 1)
                 ELSE AddMwts(AddAt(s, i), i + Len(Analysis(s.w[i].f).f))

(***************************** ud.ComplyWithText *****************************)
White == {" ", "\t", " "}
Normal(tx) == Join(SelectSeq(Split(FoldLeft(LAMBDA a, i : a \o (IF Ch(tx, i) \in White THEN " " ELSE Ch(tx, i)), "", [i \in 1..Len(tx) |-> i]), " "), LAMBDA x : x # ""), " ")
Punct == Chars(".,;:!?\"()-'„“¿¡")
AllPunct(f) == f # "" /\ Chars(f) \subseteq Punct
RECURSIVE Follows(_, _)
\* The text consists of the tokens with some spaces between them.
Follows(q, tx) == IF q = <<>> THEN tx = ""
                  ELSE StartsWith(tx, q[1].f) /\ LET r == From(tx, Len(q[1].f) + 1) IN Follows(Tail(q), IF StartsWith(r, " ") THEN From(r, 2) ELSE r)
\* No character but the space is there twice: it is clear what belongs to what
Uniq(tx) == \A i, j \in 1..Len(tx) : i < j /\ Ch(tx, i) # " " => Ch(tx, i) # Ch(tx, j)
Distinct(tx) == Chars(tx) \cap Punct = {} /\ Uniq(tx)
\* Places of spaces: numbers of other characters before them; spaces are only missing or only added
Gaps(tx) == {Cardinality({j \in 1..i : Ch(tx, j) # " "}) : i \in {i \in 1..Len(tx) : Ch(tx, i) = " "}}
OneWay(a, b) == Gaps(a) \subseteq Gaps(b) \/ Gaps(b) \subseteq Gaps(a)
\* The text before and after token i, which has tx itself
Around(q, i, tx) ==
    LET pre == FoldLeft(LAMBDA z, x : z \o x.f \o (IF x.sp THEN " " ELSE ""), "", SubSeq(q, 1, i - 1))
        rest == TokensText(SubSeq(q, i + 1, Len(q)))
        post == IF rest # "" /\ q[i].sp THEN " " \o rest ELSE rest
        fits == StartsWith(tx, pre) /\ EndsWith(tx, post) /\ Len(tx) > Len(pre) + Len(post)
    IN [fits |-> fits, mid |-> IF fits THEN SubSeq(tx, Len(pre) + 1, Len(tx) - Len(post)) ELSE ""]
\* Clear cases: one token is other, a word has spaces inside, punctuation is missing or redundant at the end
Typo(q, tx) == \E i \in 1..Len(q) : LET m == Around(q, i, tx) IN
                  m.fits /\ Chars(m.mid) \cap (Chars(TokensText(q)) \cup Punct \cup {" "}) = {} /\ Chars(q[i].f) \cap Punct = {}
Cut(s, q, tx) == \E i \in 1..Len(q) : LET m == Around(q, i, tx) IN
                  m.fits /\ m.mid # q[i].f /\ Normal(m.mid) = m.mid /\ NoSpaces(m.mid) = q[i].f /\ \E j \in 1..Len(s.w) : s.w[j].t = 0 /\ s.w[j].f = q[i].f
Appended(q, tx) == LET old == TokensText(q) IN
                  StartsWith(tx, old) /\ Len(tx) > Len(old) /\ Chars(From(tx, Len(old) + 1)) \subseteq (Punct \cup {" "}) /\ ~AllPunct(Last(q).f)
Dropped(q, tx) == \E i \in 1..(Len(q) - 1) : tx = TokensText(SubSeq(q, 1, i)) /\ \A j \in (i + 1)..Len(q) : AllPunct(q[j].f)
\* s: before, a: after, o: options
Complied(s, a, o) ==
    LET text == Normal(s.tx)
        q == Tokens(s.w, s.tk)
        clear == Uniq(text) /\ Uniq(TokensText(q)) /\
                 (Typo(q, text) \/ (o.goes /\ Cut(s, q, text)) \/ (o.add /\ Appended(q, text)) \/ (o.del /\ Dropped(q, text)))
        old == Keys(s.w) kept == Keys(a.w)
        gone == old \ kept
        A(k) == a.w[Pos(a.w, k)]
        left == SelectSeq(s.w, LAMBDA x : x.k \in kept)
        news == SelectSeq(a.w, LAMBDA x : x.k = -1)
    IN [text |-> a.tx = (IF o.fix THEN Text(a.w, a.tk) ELSE s.tx),
        unchanged |-> Text(s.w, s.tk) = text => Canon(a) = Canon(s),
        reached |-> (Follows(Tokens(s.w, s.tk), text) /\ Distinct(text) /\ OneWay(Text(s.w, s.tk), text)) => Text(a.w, a.tk) = text,
        solved |-> clear => Text(a.w, a.tk) = text,
        order |-> [i \in 1..Len(left) |-> left[i].k] = LET z == SelectSeq(a.w, LAMBDA x : x.k # -1) IN [i \in 1..Len(z) |-> z[i].k],
        deleted |-> gone # {} => o.del /\ \A k \in gone : LET x == s.w[Pos(s.w, k)] IN AllPunct(IF x.t = 0 THEN x.f ELSE s.tk[x.t].f),
        added |-> \A i \in 1..Len(news) : \/ news[i].d = "punct" /\ o.add /\ AllPunct(news[i].f)
                                          \/ news[i].d = "goeswith" /\ o.goes,
        heads |-> \A i \in 1..Len(left) : /\ A(left[i].k).h = Above(s.w, left[i].h, gone)
                                          /\ A(left[i].k).d = left[i].d,
        forms |-> \A i \in 1..Len(left) : A(left[i].k).f = left[i].f \/ left[i].f \in {"''", "``"} \/ a.cf[Pos(a.w, left[i].k)] = left[i].f]
=============================================================================
