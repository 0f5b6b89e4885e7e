------------------------------ MODULE Trace_Draw ------------------------------
(* Checks what write.TextModeTrees (in text, with colors, in HTML) and draw()  *)
(* print.  A tree t: w: words, e: empty nodes (k: after which word).  A node is    *)
(* referred to as 100 * word + number of the empty node after it.                  *)
EXTENDS Draw, TraceLib
VARIABLE l

RangeOf(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Under(_, _, _)
Under(t, x, k) == x = k \/ (k # 0 /\ Under(t, x, t.w[k].h))
Inside(t, x) == {k \in 0..Len(t.w) : Under(t, x, k)}
Empties(t) == {100 * t.e[j].k + Cardinality({i \in 1..j : t.e[i].k = t.e[j].k}) : j \in 1..Len(t.e)}
EmptyOf(t, r) == t.e[CHOOSE j \in 1..Len(t.e) : 100 * t.e[j].k + Cardinality({i \in 1..j : t.e[i].k = t.e[j].k}) = r]
\* Nodes drawn below x (0: the whole tree) in the order of their lines
Refs(t, x, pe) == LET W == {100 * k : k \in Inside(t, x)}
                      M == IF ~pe THEN {} ELSE IF x = 0 THEN Empties(t) ELSE {r \in Empties(t) : r > SMin(W) /\ r < SMax(W)}
                  IN SetToSortSeq(W \cup M, LAMBDA a, b : a < b)
NodeOf(t, r) == IF r % 100 = 0 THEN t.w[r \div 100] ELSE EmptyOf(t, r)
Name(r) == ToString(r \div 100) \o (IF r % 100 = 0 THEN "" ELSE "." \o ToString(r % 100))
Undef(v, o) == IF v = "" THEN o.undef ELSE v
ValueOf(t, r, a, o) == LET n == NodeOf(t, r) IN
    CASE a = "ord" -> Name(r) [] a = "misc[Gloss]" -> n.gloss [] a = "form" -> Undef(n.form, o) [] a = "lemma" -> Undef(n.lemma, o) [] a = "upos" -> Undef(n.upos, o)
      [] a = "deprel" -> IF r % 100 = 0 THEN Undef(n.deprel, o) ELSE o.undef
Marked(n, o) == \E k \in RangeOf(o.marks) : ContainsStr(n.misc, k \o "=")
Wrap(v, m) == IF m THEN "**" \o v \o "**" ELSE v
\* What stands at a node: one label, or one in each column
Columns(t, r, o) == LET m == o.mode = "text" /\ Marked(NodeOf(t, r), o)
                        v == [k \in 1..Len(o.attrs) |-> ValueOf(t, r, o.attrs[k], o)]
                    IN IF o.layout = "align" THEN [k \in 1..Len(v) |-> Wrap(v[k], m)] ELSE <<Wrap(Join(v, " "), m)>>
RECURSIVE RStrip(_)
RStrip(s) == IF Last0(s) = " " THEN RStrip(Upto(s, Len(s) - 1)) ELSE s
Bare(s) == \A c \in 1..Len(s) : Ch(s, c) \in Glyphs \cup {" "}
\* rows: the lines of a drawing, q: what they are, x: the word drawn (0: the tree)
Drawing(t, q, rows, x, o) ==
    LET n == Len(q)
        I == [i \in 1..n |-> [e |-> q[i] % 100 # 0, h |-> IF q[i] % 100 # 0 \/ q[i] = 100 * x THEN 0 ELSE CHOOSE j \in 1..n : q[j] = 100 * t.w[q[i] \div 100].h]]
        lab(i) == q[i] # 0
        cols == [i \in 1..n |-> IF lab(i) THEN Columns(t, q[i], o) ELSE <<>>]
        wide == IF o.layout # "align" THEN <<0>> ELSE [k \in 1..Len(o.attrs) |-> SMax({Len(cols[i][k]) : i \in {j \in 1..n : lab(j)}} \cup {0})]
        text == [i \in 1..n |-> IF o.layout # "align" THEN IF lab(i) THEN RStrip(cols[i][1]) ELSE "" ELSE RStrip(Join([k \in 1..Len(cols[i]) |-> cols[i][k] \o Rep(" ", wide[k] - Len(cols[i][k]))], " "))]
        size == [i \in 1..n |-> IF o.layout = "align" THEN Len(text[i]) ELSE IF lab(i) THEN Len(cols[i][1]) ELSE 0]
        cell == IF o.layout = "classic" THEN [i \in 1..n |-> IF lab(i) THEN cols[i][1] ELSE ""] ELSE text
        \* column before the label
        before == [i \in 1..n |-> IF ~lab(i) THEN Len(rows[i])
                    ELSE IF o.layout = "classic" /\ ~I[i].e /\ NodesAt(rows, i) # {} THEN SMax(NodesAt(rows, i))
                    ELSE Len(rows[i]) - Len(text[i]) - 1]
        labelled == \A i \in 1..n : IF ~lab(i) THEN Bare(rows[i])
                        ELSE /\ Bare(Upto(rows[i], before[i]))
                             /\ IF o.layout = "classic" /\ ~I[i].e
                                THEN LET s == RStrip(" " \o cell[i]) z == From(rows[i], before[i] + 1) IN z = s \/ (StartsWith(z, " " \o cell[i]) /\ Bare(From(z, Len(cell[i]) + 2)))
                                ELSE From(rows[i], before[i] + 1) = RStrip(" " \o text[i])
        aligned == o.layout \in {"align", "align-words"} => Cardinality({before[i] : i \in {j \in 1..n : lab(j) /\ text[j] # ""}}) <= 1
        \* the picture without labels
        bare == [i \in 1..n |-> LET z == From(rows[i], before[i] + 1) k == Len(cell[i]) + 1 IN Upto(rows[i], before[i]) \o (IF o.layout = "classic" /\ lab(i) /\ Len(z) > k THEN Rep(" ", k) \o From(z, k + 1) ELSE "")]
    IN IF Len(rows) # n THEN {"lines"}
       ELSE IF ~labelled THEN {"labels"}
       ELSE IF ~Sound(bare, I) THEN {"broken-lines"}
       ELSE Must(Heads(bare, I), "heads") \cup Must(Hints(bare, I, o.hints), "hints") \cup Must(Indents(bare, I, o.indent), "indent") \cup Must(aligned, "alignment")

CommentMarked(t, o) == \E k \in RangeOf(o.marks) : \E i \in 1..Len(t.comment) : StartsWith(t.comment[i], " " \o k \o " = ")
AnyMarked(t, o) == \/ \E r \in RangeOf(Refs(t, 0, o.empty)) \ {0} : Marked(NodeOf(t, r), o)
                   \/ o.comments /\ CommentMarked(t, o)
Shown(t, o) == ~o.only \/ AnyMarked(t, o)
TextOf(t, x) == IF x = 0 /\ t.text # "" THEN t.text ELSE Join([i \in 1..Cardinality(Inside(t, x) \ {0}) |-> t.w[SetToSortSeq(Inside(t, x) \ {0}, LAMBDA a, b : a < b)[i]].form], " ")
Headers(t, x, o) == (IF o.id THEN <<"# sent_id = " \o t.id \o (IF x = 0 THEN "" ELSE "#" \o ToString(x))>> ELSE <<>>)
                    \o (IF o.text THEN <<"# text = " \o TextOf(t, x)>> ELSE <<>>)
                    \o (IF o.comments /\ x = 0 THEN [i \in 1..Len(t.comment) |-> "#" \o t.comment[i]] ELSE <<>>)
\* What is printed, piece by piece: a line as it is, or a tree
Piece(t, x) == [t |-> t, x |-> x, s |-> ""]
Line(s) == [t |-> <<>>, x |-> 0, s |-> s]
Trees(b, o) == SelectSeq(b, LAMBDA t : o.zones = <<>> \/ t.zone \in RangeOf(o.zones))
Row(b, o) == LET q == Trees(b, o) p == SelectSeq(q, LAMBDA t : Shown(t, o)) IN
             IF o.mode = "html" /\ o.inrows
             THEN IF p = <<>> THEN <<>> ELSE <<Line("[row")>> \o FlattenSeq([i \in 1..Len(IF o.whole THEN q ELSE p) |-> <<Line("[cell"), Piece((IF o.whole THEN q ELSE p)[i], 0), Line("cell]")>>]) \o <<Line("row]")>>
             ELSE [i \in 1..Len(p) |-> Piece(p[i], 0)]
Pieces(r) == IF r.x0 # 0 THEN <<Piece(r.d[1][1], r.x0)>> ELSE
             (IF r.o.meta THEN [i \in 1..Len(r.meta) |-> Line(r.meta[i])] ELSE <<>>) \o FlattenSeq([i \in 1..Len(r.d) |-> Row(r.d[i], r.o)])
\* Read the pieces off the lines: what is wrong; a: next line
RECURSIVE Read(_, _, _, _)
Read(P, k, a, r) ==
    IF k > Len(P) THEN Must(a = Len(r.out) + 1, "end")
    ELSE IF P[k].t = <<>> THEN (IF a <= Len(r.out) /\ r.out[a] = P[k].s THEN Read(P, k + 1, a + 1, r) ELSE {"lines"})
    ELSE LET t == P[k].t x == P[k].x o == r.o
             h == Headers(t, x, o) q == Refs(t, x, o.empty)
             b == a + Len(h) z == b + Len(q) y == z + (IF o.line THEN 1 ELSE 0)
         IN IF y - 1 > Len(r.out) THEN {"lines"}
            ELSE Must(\A i \in 1..Len(h) : RStrip(r.out[a + i - 1]) = RStrip(h[i]), "headers")
                 \cup Drawing(t, q, SubSeq(r.out, b, z - 1), x, o)
                 \cup Must(\A i \in 1..Len(q) : r.lit[b + i - 1] = (o.mode # "text" /\ q[i] # 0 /\ Marked(NodeOf(t, q[i]), o)), "highlighted")
                 \cup Must(o.mode # "text" => \A i \in 1..Len(h) : r.lit[a + i - 1] = (\E c \in 1..Len(t.comment) : o.comments /\ x = 0 /\ i = Len(h) - Len(t.comment) + c /\ \E m \in RangeOf(o.marks) : StartsWith(t.comment[c], " " \o m \o " = ")), "highlighted-comments")
                 \cup (IF o.line THEN Must(r.out[z] = "", "empty-line") ELSE {})
                 \cup Read(P, k + 1, y, r)
DrawV(r) == IF r.x # "" THEN {"draw:raised"} ELSE {"draw:" \o c : c \in Read(Pieces(r), 1, 1, r)}
Hist(r) == CASE r.op = "draw" -> DrawV(r)
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
