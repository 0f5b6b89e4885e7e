-------------------------------- MODULE Formats --------------------------------
(* Other formats.  A tree t: w: words [h, f, l, u, x, fe, d, mi, sp], t: multi-  *)
(* word tokens [a, b, f], in order.                                               *)
EXTENDS Str, Naturals, Sequences, SequencesExt, FiniteSets

RangeOf(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE MapStr(_, _)
MapStr(s, M) == IF s = "" THEN "" ELSE (LET c == Ch(s, 1) IN IF c \in DOMAIN M THEN M[c] ELSE c) \o MapStr(From(s, 2), M)
TokenAt(t, i) == LET K == {k \in 1..Len(t.t) : t.t[k].a <= i /\ i <= t.t[k].b} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
\* Tokens as sequences of words
Tokens(t) == SelectSeq([i \in 1..Len(t.w) |-> LET k == TokenAt(t, i) IN IF k = 0 THEN [a |-> i, b |-> i, f |-> t.w[i].f] ELSE IF t.t[k].a = i THEN t.t[k] ELSE [a |-> 0, b |-> 0, f |-> ""]], LAMBDA x : x.a # 0)
RECURSIVE FlatText(_, _)
FlatText(T, i) == IF i > Len(T) THEN "" ELSE IF i = Len(T) THEN T[i].f ELSE T[i].f \o (IF T[i].sp THEN "" ELSE " ") \o FlatText(T, i + 1)
SpaceNo(t, x) == LET k == TokenAt(t, x.a) IN IF k = 0 THEN t.w[x.a].sp ELSE t.t[k].sp
TextOf(t) == FlatText([i \in 1..Len(Tokens(t)) |-> [f |-> Tokens(t)[i].f, sp |-> SpaceNo(t, Tokens(t)[i])]], 1)

(*************************************** VISL CG ***************************************)
\* S stands for the section sign
Visl(sec) == [c \in {sec, "\"", "#", ";", "=", "(", ")", "|"} |-> sec \o (CASE c = sec -> "sect" [] c = "\"" -> "quot" [] c = "#" -> "num" [] c = ";" -> "semi" [] c = "=" -> "equals" [] c = "(" -> "lpar" [] c = ")" -> "rpar" [] c = "|" -> "verbar") \o "."]
VislWord(t, i, sec) == LET w == t.w[i] e(s) == MapStr(s, Visl(sec)) IN
    "\"" \o e(w.l) \o "\" " \o e(w.x) \o (IF w.fe = "_" THEN "" ELSE " " \o Join([k \in 1..Len(Split(w.fe, "|")) |-> e(Split(w.fe, "|")[k])], " "))
    \o " @" \o w.d \o " #" \o ToString(i) \o "->" \o ToString(w.h)
VislLines(t, sec) == FlattenSeq([k \in 1..Len(Tokens(t)) |-> LET x == Tokens(t)[k] IN
    <<"\"<" \o MapStr(x.f, Visl(sec)) \o ">\"", "\t" \o VislWord(t, x.a, sec)>> \o [j \in 1..(x.b - x.a) |-> "\t\t" \o VislWord(t, x.a + j, sec)]]) \o <<"">>
\* What can be read back: words of multiword tokens have no forms in the file but for the first one,
\* unless the form of the token has as many parts as there are words
Words(s) == SelectSeq(Split(s, " "), LAMBDA p : p # "")
VislKept(t) == [w |-> [i \in 1..Len(t.w) |-> LET k == TokenAt(t, i) w == t.w[i]
                          p == IF k = 0 THEN <<>> ELSE Words(t.t[k].f)
                          f == IF k = 0 THEN w.f ELSE IF Len(p) = t.t[k].b - t.t[k].a + 1 THEN p[i - t.t[k].a + 1] ELSE IF t.t[k].a = i THEN t.t[k].f ELSE "_"
                      IN [h |-> w.h, f |-> f, l |-> w.l, x |-> w.x, fe |-> w.fe, d |-> w.d]],
                t |-> [k \in 1..Len(SelectSeq(t.t, LAMBDA m : m.b > m.a)) |-> LET m == SelectSeq(t.t, LAMBDA z : z.b > z.a)[k] IN [a |-> m.a, b |-> m.b, f |-> m.f]]]
\* The reader
Names == <<"sect", "quot", "num", "semi", "equals", "lpar", "rpar", "verbar">>
CharOf(n, sec) == CASE n = "sect" -> sec [] n = "quot" -> "\"" [] n = "num" -> "#" [] n = "semi" -> ";" [] n = "equals" -> "=" [] n = "lpar" -> "(" [] n = "rpar" -> ")" [] n = "verbar" -> "|"
RECURSIVE Unvisl(_, _)
Unvisl(s, sec) == IF s = "" THEN ""
    ELSE LET K == {k \in 1..Len(Names) : StartsWith(s, sec \o Names[k] \o ".")} IN
         IF K = {} THEN Ch(s, 1) \o Unvisl(From(s, 2), sec) ELSE LET n == Names[CHOOSE k \in K : TRUE] IN CharOf(n, sec) \o Unvisl(From(s, Len(n) + 3), sec)
RECURSIVE LTrim(_)
LTrim(s) == IF s # "" /\ Ch(s, 1) \in {" ", "\t"} THEN LTrim(From(s, 2)) ELSE s
LastQuote(s) == CHOOSE i \in 1..Len(s) : Ch(s, i) = "\"" /\ \A j \in (i + 1)..Len(s) : Ch(s, j) # "\""
VislReadWord(line, f, sec) == LET s == LTrim(line) q == LastQuote(s) p == Words(From(s, q + 1)) n == Len(p) e(x) == Unvisl(x, sec) IN
    [h |-> ToNat(Split(p[n], "->")[2]), f |-> f, l |-> e(SubSeq(s, 2, q - 1)), x |-> e(p[1]), fe |-> IF n = 3 THEN "_" ELSE Join([k \in 1..(n - 3) |-> e(p[k + 1])], "|"), d |-> From(p[n - 1], 2)]
VislRead(L, sec) ==
    LET body == SelectSeq(L, LAMBDA s : s # "" /\ ~StartsWith(s, "#"))
        isw(s) == Ch(s, 1) \in {" ", "\t"}
        heads == SelectSeq([i \in 1..Len(body) |-> i], LAMBDA i : ~isw(body[i]))
        count(i) == Cardinality({j \in 1..i : isw(body[j])})
        last(k) == IF k = Len(heads) THEN Len(body) ELSE heads[k + 1] - 1
        tok == [k \in 1..Len(heads) |-> [a |-> count(heads[k]) + 1, b |-> count(last(k)), f |-> Unvisl(SubSeq(body[heads[k]], 3, Len(body[heads[k]]) - 2), sec)]]
        wl == SelectSeq(body, isw)
        of(i) == CHOOSE k \in 1..Len(tok) : tok[k].a <= i /\ i <= tok[k].b
        form(i) == LET x == tok[of(i)] p == Words(x.f) IN IF x.a = x.b THEN x.f ELSE IF Len(p) = x.b - x.a + 1 THEN p[i - x.a + 1] ELSE IF i = x.a THEN x.f ELSE "_"
    IN [w |-> [i \in 1..Len(wl) |-> VislReadWord(wl[i], form(i), sec)], t |-> SelectSeq(tok, LAMBDA x : x.b > x.a)]

(*************************************** Stanford dependencies ***************************************)
SdEsc(s) == MapStr(s, [c \in {"\\", "/"} |-> "\\" \o c])
SdNode(w, o) == SdEsc(w.f) \o (IF o.upos THEN "/" \o w.u ELSE "") \o (IF o.feats /\ w.fe # "_" THEN (IF o.upos THEN "" ELSE "/") \o "[" \o w.fe \o "]" ELSE "")
SdForm(t, i, o) == IF o.ord \/ Cardinality({k \in 1..Len(t.w) : t.w[k].f = t.w[i].f}) > 1 THEN SdEsc(t.w[i].f \o "-" \o ToString(i)) ELSE SdEsc(t.w[i].f)
SdLines(t, o) == LET I == SelectSeq([i \in 1..Len(t.w) |-> i], LAMBDA i : t.w[i].h # 0) IN
    <<"~~~ sdparse", Join([i \in 1..Len(t.w) |-> SdNode(t.w[i], o)], " ")>> \o [k \in 1..Len(I) |-> t.w[I[k]].d \o "(" \o SdForm(t, t.w[I[k]].h, o) \o ", " \o SdForm(t, I[k], o) \o ")"] \o <<"~~~", "">>

(*************************************** names of further columns ***************************************)
Cap == [c \in {Ch("abcdefghijklmnopqrstuvwxyz", i) : i \in 1..26} |-> LET i == CHOOSE j \in 1..26 : Ch("abcdefghijklmnopqrstuvwxyz", j) = c IN Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i)]
UpName(s) == (IF Ch(s, 1) \in DOMAIN Cap THEN Cap[Ch(s, 1)] ELSE Ch(s, 1)) \o From(s, 2)
\* words with spaces as shown by the viewer
TextAsWords(t) == Join([i \in 1..Len(t.w) |-> t.w[i].f \o (IF t.w[i].sp THEN "" ELSE " ")], "")
(*************************************** LaTeX ***************************************)
Tex == [c \in {"_", "$", "[", "]", "&", "%", "#", "{", "}", "~", "^", "\\"} |->
          CASE c = "[" -> "$[$" [] c = "]" -> "$]$" [] c = "~" -> "\\textasciitilde{}" [] c = "^" -> "\\textasciicircum{}" [] c = "\\" -> "\\textbackslash{}" [] c = "&" -> "\\symbol{38}" [] OTHER -> "\\" \o c]
(*************************************** structure ***************************************)
Kids(t, x) == SelectSeq([i \in 1..Len(t.w) |-> i], LAMBDA i : t.w[i].h = x)
RECURSIVE Preorder(_, _)
Preorder(t, x) == (IF x = 0 THEN <<>> ELSE <<x>>) \o FlattenSeq([k \in 1..Len(Kids(t, x)) |-> Preorder(t, Kids(t, x)[k])])
=============================================================================
