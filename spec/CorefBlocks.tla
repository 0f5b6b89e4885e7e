----------------------------- MODULE CorefBlocks -----------------------------
(* Blocks which edit coreference or trees with coreference.  A sentence is      *)
(* [em: for every word, is it an empty node; h: heads (0: the root; empty      *)
(* nodes have none); d: enhanced dependencies [p, r] of every word; le: lemmas]*)
(* and d, the entities of the document, are as in Coref.                       *)
EXTENDS CorefEdit

N(s) == Len(s.em)
\* Words which are not empty, and those which are
Full(s) == {p \in 1..N(s) : ~s.em[p]}
Empties(s) == {p \in 1..N(s) : s.em[p]}
\* Ords: 10 times the number of the word, empty nodes are in between
OrdAt(s, p) == LET b == {q \in Full(s) : q <= p} IN 10 * Cardinality(b) + (IF s.em[p] THEN p - Max(b \cup {0}) ELSE 0)
Up(s, p) == IF p = 0 \/ s.em[p] THEN {} ELSE {s.h[p]}
RECURSIVE Above(_, _)
Above(s, p) == {p} \cup UNION {Above(s, q) : q \in Up(s, p)}
Lowest(s, C) == CHOOSE a \in C : \A b \in C : b \in Above(s, a)
Nearest(s, X) == Lowest(s, {a \in 0..N(s) : \A x \in X : a \in Above(s, x)})
Depth(s, p) == Cardinality(Above(s, p)) - 1
Subtree(s, p) == {q \in 1..N(s) : p \in Above(s, q)}

(*********************************** MoveHead ********************************)
Parents(s, p) == IF s.d[p] # <<>> THEN {s.d[p][i].p : i \in 1..Len(s.d[p])} ELSE Up(s, p)
NonEmpty(s, p) == p = 0 \/ ~s.em[p]
Top(s, m, keep) ==
    LET W == SetOf(m.w)
        basic == {w \in W : Up(s, w) \cap W = {}}
        e1 == {w \in basic : Parents(s, w) \cap W = {}}
        enh == IF e1 # {} THEN e1 ELSE {w \in basic : Parents(s, w) \ W # {}}
        first(w) == LET q == SelectSeq(s.d[w], LAMBDA x : NonEmpty(s, x.p)) IN IF q = <<>> THEN {} ELSE {q[1].p}
        X == {w \in enh : ~s.em[w]} \cup UNION {first(w) : w \in {x \in enh : s.em[x]}}
    IN IF Cardinality(basic) = 1 THEN CHOOSE w \in basic : TRUE
       ELSE IF enh = {} THEN m.h
       ELSE IF Cardinality(enh) = 1 THEN CHOOSE w \in enh : TRUE
       ELSE IF X # {} /\ Nearest(s, X) \in enh THEN Nearest(s, X)
       ELSE IF keep /\ m.h \in enh THEN m.h ELSE Min(enh)
EachMention(d, F(_)) == [i \in 1..Len(d) |-> [d[i] EXCEPT !.ms = [j \in 1..Len(@) |-> F(@[j])]]]
MoveHeads(S, d, keep) == EachMention(d, LAMBDA m : [m EXCEPT !.h = IF Len(m.w) = 1 THEN @ ELSE Top(S[m.s], m, keep)])

(********************************** GuessSpan ********************************)
GuessedWords(s, h) ==
    LET W == Subtree(s, h) a == OrdAt(s, Min(W)) z == OrdAt(s, Max(W))
        low == IF s.em[Min(W)] THEN 10 * (a \div 10) ELSE a - 10
        high == 10 * (z \div 10) + 10
        num(k) == {p \in Full(s) : OrdAt(s, p) = k}
        near(e) == num(10 * (OrdAt(s, e) \div 10)) \cup num(10 * (OrdAt(s, e) \div 10) + 10)
    IN W \cup {e \in Empties(s) : /\ OrdAt(s, e) > low /\ OrdAt(s, e) < high
                                  /\ \/ \E i \in 1..Len(s.d[e]) : s.d[e][i].p \in W
                                     \/ OrdAt(s, e) > low + 10 /\ OrdAt(s, e) < high - 10 /\ near(e) \subseteq W}
GuessSpans(S, d) == EachMention(d, LAMBDA m : [m EXCEPT !.w = InOrder(GuessedWords(S[m.s], m.h))])

(******************************* FixParentheses ******************************)
Lemmas(s, W) == {s.le[p] : p \in W}
NextFull(s, p) == LET q == {x \in Full(s) : x > p} IN IF q = {} THEN 0 ELSE Min(q)
PrevFull(s, p) == LET q == {x \in Full(s) : x < p} IN IF q = {} THEN 0 ELSE Max(q)
\* The word to be added for a pair of parentheses, 0 if none; was: the words as they were
Missing(s, was, W, a, b) ==
    LET L == Lemmas(s, was) n == IF s.em[Max(W)] THEN 0 ELSE NextFull(s, Max(W)) p == IF s.em[Min(W)] THEN 0 ELSE PrevFull(s, Min(W)) IN
    IF a \in L THEN IF b \notin L /\ n > 0 /\ (n = 0 \/ s.le[Max({n, 1})] = b) THEN n ELSE 0
    ELSE IF b \in L /\ p > 0 /\ (p = 0 \/ s.le[Max({p, 1})] = a) THEN p ELSE 0
WithParens(s, W) ==
    FoldLeft(LAMBDA V, x : LET y == Missing(s, W, V, x[1], x[2]) IN IF y = 0 THEN V ELSE V \cup {y}, W, <<<<"(", ")">>, <<"[", "]">>, <<"{", "}">>>>)
FixParens(S, d) == EachMention(d, LAMBDA m : [m EXCEPT !.w = InOrder(WithParens(S[m.s], SetOf(@)))])
ParenMarks(S, d, s) == UNION {WithParens(S[s], SetOf(m.w)) \ SetOf(m.w) : m \in {x \in UNION {SetOf(e.ms) : e \in SetOf(d)} : x.s = s}}

(************************************ marks **********************************)
\* All pairs of different mentions of a sentence as records [m, n, same: are they of one entity]
Pairs(d, s) ==
    LET I == {<<i, j>> : i \in 1..Len(d), j \in 1..Max({0} \cup {Len(d[z].ms) : z \in 1..Len(d)})}
        J == {x \in I : x[2] <= Len(d[x[1]].ms) /\ d[x[1]].ms[x[2]].s = s}
    IN {[m |-> d[x[1]].ms[x[2]], n |-> d[y[1]].ms[y[2]], same |-> x[1] = y[1], x |-> x, y |-> y] : x \in J, y \in J} \ {[m |-> d[x[1]].ms[x[2]], n |-> d[x[1]].ms[x[2]], same |-> TRUE, x |-> x, y |-> x] : x \in J}
Ws(m) == SetOf(m.w)
Gaps(m) == Len(Runs(m.w)) > 1
Nested(m, n) == Ws(m) \subseteq Ws(n) \/ Ws(n) \subseteq Ws(m)
Apart(m, n) == Last(m.w) < n.w[1] \/ Last(n.w) < m.w[1]
Interleaved(m, n) == Ws(m) \cap Ws(n) = {} /\ ~Apart(m, n)
\* Words marked by a block with options o
Marked(d, s, kind, o) ==
    LET P == {x \in Pairs(d, s) : (~o.same \/ x.same) /\ (~o.both \/ (Gaps(x.m) /\ Gaps(x.n)))}
        all(x) == Ws(x.m) \cup Ws(x.n)
    IN CASE kind = "crossing" -> UNION {Ws(x.m) \cap Ws(x.n) : x \in {y \in Pairs(d, s) : (~o.same \/ y.same) /\ ~Nested(y.m, y.n) /\ (~o.cont \/ ~(Gaps(y.m) \/ Gaps(y.n)))}}
         [] kind = "interleaved" -> UNION {all(x) : x \in {y \in P : Interleaved(y.m, y.n)}}
         [] kind = "nested" -> UNION {all(x) : x \in {y \in P : Nested(y.m, y.n) /\ (~o.multi \/ (Len(y.m.w) > 1 /\ Len(y.n.w) > 1))}}
         [] kind = "subspan" -> UNION {all(x) : x \in {y \in P : SameRun(y.m, y.n) /\ (~o.nest \/ Nested(y.m, y.n))}}

(******************************** merged mentions ****************************)
\* Of mentions with the same words (of one entity, if same), the one of the entity with the first ID stays
MergeSame(d, same) ==
    LET stays(i, m) == \A j \in 1..Len(d) : j = i \/ same \/ ~LessStr(d[j].id, d[i].id) \/ \A n \in SetOf(d[j].ms) : <<n.s, n.w>> # <<m.s, m.w>>
    IN [i \in 1..Len(d) |-> {<<m.s, m.w>> : m \in {x \in SetOf(d[i].ms) : stays(i, x)}}]
\* Should two mentions of one entity be one?
Conflict(m, n, o) ==
    /\ IF Nested(m, n) THEN o.nest /\ SameRun(m, n) ELSE IF o.crossing THEN Ws(m) \cap Ws(n) # {} ELSE ~Apart(m, n)
    /\ ~o.both \/ (Gaps(m) /\ Gaps(n))
\* Entities with at most two mentions in a sentence are fixed at once: the words of their mentions afterwards
Interleaving(d, o) ==
    LET words(ms, s) == LET q == SelectSeq(ms, LAMBDA m : m.s = s) IN
                        IF Len(q) = 2 /\ Conflict(q[1], q[2], o) THEN {<<s, InOrder(Ws(q[1]) \cup Ws(q[2]))>>} ELSE {<<s, q[i].w>> : i \in 1..Len(q)}
    IN [i \in 1..Len(d) |-> UNION {words(d[i].ms, s) : s \in {m.s : m \in SetOf(d[i].ms)}}]
AtMostTwo(d) == \A e \in SetOf(d) : \A s \in {m.s : m \in SetOf(e.ms)} : Len(SelectSeq(e.ms, LAMBDA m : m.s = s)) <= 2

(******************************** IDs of entities ****************************)
Renumbered(d, start, prefix) == [i \in 1..Len(d) |-> [d[i] EXCEPT !.id = prefix \o Num(start + i - 1)]]
\* With links and antecedents renamed as well
Renamed(d, new(_)) == [i \in 1..Len(d) |-> [d[i] EXCEPT !.id = new(@), !.sa = [j \in 1..Len(@) |-> new(@[j])],
                                                        !.ms = [j \in 1..Len(@) |-> [@[j] EXCEPT !.b = [z \in 1..Len(@) |-> [@[z] EXCEPT !.t = new(@)]]]]]]
IndexAll(d, start, prefix) == LET at(id) == CHOOSE i \in 1..Len(d) : d[i].id = id IN Renamed(d, LAMBDA id : prefix \o Num(start + at(id) - 1))
\* An entity for every document its mentions are in; docs: prefixes of IDs for sentences
SplitDocs(d, docs) ==
    LET D == SetOf(docs)
        one(e, x) == [id |-> x \o e.id, ty |-> e.ty, sa |-> <<>>,
                      ms |-> LET q == SelectSeq(e.ms, LAMBDA m : docs[m.s] = x) IN
                             [j \in 1..Len(q) |-> [q[j] EXCEPT !.b = [z \in 1..Len(@) |-> [@[z] EXCEPT !.t = x \o @]]]]]
        all == {one(e, x) : e \in SetOf(d), x \in D}
    IN Norm(SetToSeq({e \in all : e.ms # <<>>}))
\* Entities whose IDs do not start with NOCOREF, and links to them only
OnlyCoref(d) ==
    LET no(id) == StartsWith(id, "NOCOREF") q == SelectSeq(d, LAMBDA e : ~no(e.id)) IN
    [i \in 1..Len(q) |-> [q[i] EXCEPT !.sa = SelectSeq(@, LAMBDA t : ~no(t)), !.ms = [j \in 1..Len(@) |-> [@[j] EXCEPT !.b = SelectSeq(@, LAMBDA l : ~no(l.t))]]]]

(*********************************** links ***********************************)
\* Nodes with IDs and antecedents: n is a sequence of [id, ante, bridge, rel].  Sets of nodes which are one entity:
Component(n, i) ==
    LET link(a, b) == a # b /\ n[a].id # "" /\ n[b].id # "" /\ (n[a].ante = n[b].id \/ n[b].ante = n[a].id)
        grow(X) == X \cup {b \in 1..Len(n) : \E a \in X : link(a, b)}
    IN FoldLeft(LAMBDA X, z : grow(X), {i}, [z \in 1..Len(n) |-> z])
Bridges(n) == {<<i, j>> \in (1..Len(n)) \X (1..Len(n)) : i # j /\ n[i].id # "" /\ n[j].id # "" /\ n[i].bridge = n[j].id}
Clusters(n) == {X \in {Component(n, i) : i \in 1..Len(n)} : Cardinality(X) > 1 \/ \E b \in Bridges(n) : b[1] \in X \/ b[2] \in X}

(******************************** empty nodes ********************************)
Deps(s, p) == {<<s.d[p][i].p, s.d[p][i].r>> : i \in 1..Len(s.d[p])}
\* Is there a way to the root by enhanced dependencies, not through empty nodes?
Reaches(s, p) ==
    LET grow(X) == X \cup {q \in Full(s) \cup {0} : \E x \in X \ {0} : \E e \in Deps(s, x) : e[1] = q}
    IN 0 \in FoldLeft(LAMBDA X, z : grow(X), {p}, [z \in 1..(N(s) + 1) |-> z])
\* Empty nodes above, and is there a cycle of them?
EmptyAbove(s, p) == LET grow(X) == X \cup {q \in Empties(s) : \E x \in X : \E e \in Deps(s, x) : e[1] = q}
                    IN FoldLeft(LAMBDA X, z : grow(X), {q \in Empties(s) : \E e \in Deps(s, p) : e[1] = q}, [z \in 1..(N(s) + 1) |-> z])
WithoutEmpty(s, p) ==
    LET own == {e \in Deps(s, p) : NonEmpty(s, e[1])} E == EmptyAbove(s, p)
        cycle == \E x \in E : x \in EmptyAbove(s, x)
    IN IF own = Deps(s, p) \/ Reaches(s, p) THEN own
       ELSE own \cup UNION {{e \in Deps(s, x) : NonEmpty(s, e[1])} : x \in E} \cup (IF cycle THEN {<<0, "root">>} ELSE {})
\* The words are taken in order
NoEmpty(s) == FoldLeft(LAMBDA t, p : [t EXCEPT !.d[p] = SetToSeq({[p |-> e[1], r |-> e[2]] : e \in WithoutEmpty(t, p)})], s, InOrder(Full(s)))
\* An empty node keeps its highest parent only
SingleOk(s, p, D) ==
    LET P == {e[1] : e \in {x \in Deps(s, p) : NonEmpty(s, x[1])}} IN
    IF Len(s.d[p]) < 2 THEN D = Deps(s, p)
    ELSE IF P = {} THEN D = {}
    ELSE \E a \in P : /\ \A b \in P : Depth(s, a) <= Depth(s, b)
                      /\ D = {e \in Deps(s, p) : e[1] = a}
=============================================================================
