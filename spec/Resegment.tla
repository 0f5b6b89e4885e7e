----------------------------- MODULE Resegment -----------------------------
(* Changing the division of a document into sentences.                        *)
(* A document is [s: sentences, tk: tokens]; a sentence [id, tx (text, "" if   *)
(* not known), w: words]; a word [k: its name (a number), h: the name of its   *)
(* head or 0, d: deprel, f: form, sp: space after, t: number of its multiword  *)
(* token or 0, m: the mark for splitting or joining]; a token [f, sp].         *)
EXTENDS Str, SequencesExt, FiniteSetsExt

Tokens(w, tk) == FlattenSeq([i \in 1..Len(w) |->
    IF w[i].t = 0 THEN <<[f |-> w[i].f, sp |-> w[i].sp]>>
    ELSE IF i > 1 /\ w[i - 1].t = w[i].t THEN <<>> ELSE <<tk[w[i].t]>>])
RECURSIVE RStrip(_)
RStrip(s) == IF EndsWith(s, " ") THEN RStrip(Upto(s, Len(s) - 1)) ELSE s
TokensText(q) == RStrip(FoldLeft(LAMBDA a, x : a \o x.f \o (IF x.sp THEN " " ELSE ""), "", q))
Text(w, tk) == TokensText(Tokens(w, tk))
Keys(w) == {w[i].k : i \in 1..Len(w)}

(********************************* splitting *********************************)
\* A part of a sentence: words whose head is elsewhere are attached to the root, words at the root have deprel root
Part(w) == [i \in 1..Len(w) |-> LET h == IF w[i].h \in Keys(w) THEN w[i].h ELSE 0 IN
                                [w[i] EXCEPT !.h = h, !.d = IF h = 0 THEN "root" ELSE @]]
Letter(i) == Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i)
\* P: the positions of first words of the new sentences
SplitAt(s, P, tk) ==
    IF P = {} THEN <<s>>
    ELSE LET b == <<1>> \o SetToSortSeq(P, LAMBDA x, y : x < y) \o <<Len(s.w) + 1>> IN
         [i \in 1..(Len(b) - 1) |-> LET w == Part(SubSeq(s.w, b[i], b[i + 1] - 1)) IN
                                    [id |-> s.id \o Letter(i), tx |-> Text(w, tk), w |-> w]]
First(d, id) == LET K == {i \in 1..Len(d.s) : d.s[i].id = id} IN IF K = {} THEN 0 ELSE Min(K)
Splice(q, i, n, r) == SubSeq(q, 1, i - 1) \o r \o SubSeq(q, i + n, Len(q))
SplitId(d, id, p) == LET i == First(d, id) IN IF i = 0 THEN d ELSE [d EXCEPT !.s = Splice(@, i, 1, SplitAt(@[i], {p}, d.tk))]
\* v: the value of the mark, or "" for any
Marked(x, v) == x.m # "" /\ (v = "" \/ x.m = v)
Unmark(w, v, from) == [i \in 1..Len(w) |-> IF i >= from /\ Marked(w[i], v) THEN [w[i] EXCEPT !.m = ""] ELSE w[i]]
SplitMarked(d, v) ==
    [d EXCEPT !.s = FlattenSeq([i \in 1..Len(d.s) |-> LET w == d.s[i].w IN
        SplitAt([d.s[i] EXCEPT !.w = Unmark(w, v, 2)], {j \in 2..Len(w) : Marked(w[j], v)}, d.tk)])]

(********************************** joining **********************************)
\* Join sentence i to the one before
Glue(d, i) == LET w == d.s[i - 1].w \o d.s[i].w IN
              [d EXCEPT !.s = Splice(@, i - 1, 2, <<[id |-> @[i - 1].id, tx |-> Text(w, d.tk), w |-> w]>>)]
JoinId(d, id) == LET i == First(d, id) IN IF i < 2 THEN d ELSE Glue(d, i)
HasMark(s, v) == \E j \in 1..Len(s.w) : Marked(s.w[j], v)
RECURSIVE JoinFromTo(_, _, _)
JoinFromTo(d, i, v) ==
    IF i > Len(d.s) THEN d
    ELSE IF HasMark(d.s[i], v) THEN JoinFromTo(Glue([d EXCEPT !.s[i].w = Unmark(@, v, 1)], i), i, v)
    ELSE JoinFromTo(d, i + 1, v)
JoinMarked(d, v) == JoinFromTo(d, 2, v)
RECURSIVE MergeFrom(_, _)
MergeFrom(d, i) == IF i > Len(d.s) THEN d
    ELSE IF EndsWith(Last(d.s[i - 1].w).f, ";") THEN MergeFrom(Glue(d, i), i) ELSE MergeFrom(d, i + 1)
Merge(d) == MergeFrom(d, 2)

(******************************** whole documents ****************************)
\* Documents of n sentences each, the last one may be smaller
Chunks(q, n) == IF q = <<>> THEN <<<<>>>> ELSE [i \in 1..((Len(q) + n - 1) \div n) |-> SubSeq(q, (i - 1) * n + 1, IF i * n > Len(q) THEN Len(q) ELSE i * n)]

(******************************* segmented text ******************************)
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
Closing == Chars("\"“»›)")
Opening == Chars("\"„«¿¡‹(")
Upper == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZČŘŠŽÁÉÍÓÚ")
NoClosing(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in Closing THEN Upto(s, Len(s) - 1) ELSE s
NoOpening(s) == IF Len(s) > 0 /\ Ch(s, 1) \in Opening THEN From(s, 2) ELSE s
\* A sentence ends with .!? before an upper-case letter, but not after an initial or an abbreviation.
Boundary(a, b) ==
    LET x == NoClosing(a) y == NoOpening(b) IN
    /\ x # "" /\ y # "" /\ Ch(y, 1) \in Upper /\ Ch(x, Len(x)) \in {".", "!", "?"}
    /\ Ch(x, Len(x)) = "." => LET z == NoOpening(x) IN
          ~(Len(z) = 2 /\ Ch(z, 1) \in Upper) /\ ~EndsWith(z, "např.") /\ ~EndsWith(z, "e.g.")
Segments(text, keep) ==
    LET t == Split(text, " ") IN
    FoldLeft(LAMBDA q, i : IF Boundary(t[i - 1], t[i])
                           THEN Append((IF keep THEN [q EXCEPT ![Len(q)] = @ \o " "] ELSE q), t[i])
                           ELSE [q EXCEPT ![Len(q)] = @ \o " " \o t[i]],
             <<t[1]>>, [i \in 1..(Len(t) - 1) |-> i + 1])

(************************ one division taken from another ********************)
\* Characters without spaces
NoSpaces(s) == FoldLeft(LAMBDA a, i : IF Ch(s, i) \in {" ", " "} THEN a ELSE a \o Ch(s, i), "", [i \in 1..Len(s) |-> i])
CharsOf(w, tk) == NoSpaces(FoldLeft(LAMBDA a, x : a \o x.f, "", Tokens(w, tk)))
AllWords(q) == FlattenSeq([i \in 1..Len(q) |-> q[i].w])
RootsOf(w) == {i \in 1..Len(w) : w[i].h = 0}
\* p: sentences before, q: sentences after with the division of g
Regold(p, q, g, tk, gtk) ==
    LET a == AllWords(p) b == AllWords(q) IN
    [words |-> [i \in 1..Len(a) |-> <<a[i].k, a[i].f, a[i].d, a[i].t>>] = [i \in 1..Len(b) |-> <<b[i].k, b[i].f, b[i].d, b[i].t>>],
     division |-> Len(q) = Len(g) /\ \A i \in 1..Len(q) : CharsOf(q[i].w, tk) = CharsOf(g[i].w, gtk),
     roots |-> (\A i \in 1..Len(p) : Cardinality(RootsOf(p[i].w)) = 1) => \A i \in 1..Len(q) : Cardinality(RootsOf(q[i].w)) = 1,
     heads |-> \A i \in 1..Len(q) : LET K == Keys(q[i].w) IN \A j \in 1..Len(q[i].w) :
                  /\ q[i].w[j].h \in K \cup {0}
                  /\ LET o == a[CHOOSE x \in 1..Len(a) : a[x].k = q[i].w[j].k] IN (o.h # 0 /\ o.h \in K) => q[i].w[j].h = o.h]
=============================================================================
