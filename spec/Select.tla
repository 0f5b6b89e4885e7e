------------------------------- MODULE Select -------------------------------
(* Blocks which select, mark, count and compare words.  A tree is a sequence   *)
(* of words [k: key, h: key of the parent or 0, f, l, u, d: form, lemma, upos,  *)
(* deprel, mi: attributes of MISC as pairs [k, v] in the order of names].       *)
EXTENDS Str, SequencesExt, FiniteSetsExt

SetOf(q) == {q[i] : i \in 1..Len(q)}
Pos(w, k) == CHOOSE i \in 1..Len(w) : w[i].k = k
LowerLess(a, b) == LET x == LowerCodes(a) y == LowerCodes(b) IN x # y /\ LexLeq(x, y)
Get(q, k) == LET I == {i \in 1..Len(q) : q[i].k = k} IN IF I = {} THEN "" ELSE q[CHOOSE i \in I : TRUE].v
Drop(q, K) == SelectSeq(q, LAMBDA x : x.k \notin K)
Put(q, k, v) == SortSeq(Append(Drop(q, {k}), [k |-> k, v |-> v]), LAMBDA x, y : LowerLess(x.k, y.k))
RECURSIVE IsUnder(_, _, _)
\* Is the word with key k strictly below the one with key x (0: the root)?
IsUnder(w, k, x) == LET h == w[Pos(w, k)].h IN h = x \/ (h # 0 /\ IsUnder(w, h, x))
Kids(w, k) == {i \in 1..Len(w) : w[i].h = k}

(********************************* conditions ********************************)
\* c: [t: which condition, v: value].  No condition: t = ""
NonProj(w, i) ==
    LET h == w[i].h IN
    IF h = 0 THEN FALSE
    ELSE LET p == Pos(w, h) lo == IF p < i THEN p ELSE i hi == IF p < i THEN i ELSE p
         IN \E j \in (lo + 1)..(hi - 1) : ~IsUnder(w, w[j].k, h)
Node(w, i, c) ==
    CASE c.t = "upos" -> w[i].u = c.v
      [] c.t = "starts" -> \E x \in SetOf(Split(c.v, "|")) : StartsWith(w[i].u, x)
      [] c.t = "marked" -> Get(w[i].mi, "Mark") # ""
      [] c.t = "leaf" -> Kids(w, w[i].k) = {}
      [] c.t = "top" -> w[i].h = 0
      [] c.t = "kids" -> Cardinality(Kids(w, w[i].k)) > 1
      [] c.t = "left" -> w[i].h # 0 /\ i < Pos(w, w[i].h)
      [] c.t = "nonproj" -> NonProj(w, i)
      [] c.t = "ord" -> i = ToNat(c.v)
Tree(w, c) == CASE c.t = "big" -> Len(w) > ToNat(c.v) [] c.t = "flat" -> \A i \in 1..Len(w) : w[i].h = 0 [] c.t = "all" -> TRUE [] c.t = "some" -> w # <<>>
Matching(w, c) == {i \in 1..Len(w) : Node(w, i, c)}

(********************************* util.Filter *******************************)
RECURSIVE Above(_, _, _)
Above(w, h, D) == IF h = 0 \/ h \notin D THEN h ELSE Above(w, w[Pos(w, h)].h, D)
\* Without the words D, their children go up
Rehang(w, D) == LET v == [i \in 1..Len(w) |-> [w[i] EXCEPT !.h = Above(w, @, D)]] IN SelectSeq(v, LAMBDA x : x.k \notin D)
Below(w, K) == {x.k : x \in {y \in SetOf(w) : y.k \in K \/ \E k \in K : IsUnder(w, y.k, k)}}
KeysOf(w, I) == {w[i].k : i \in I}
Subtrees(w, K) == SelectSeq(w, LAMBDA x : x.k \in Below(w, K))
Gone == <<[gone |-> TRUE]>>
\* p: the parameters in the order in which they are evaluated
Filtered(w, p) ==
    LET w1 == IF p.ds.t = "" THEN w ELSE SelectSeq(w, LAMBDA x : x.k \notin Below(w, KeysOf(w, Matching(w, p.ds)))) IN
    IF (p.dt.t # "" /\ Tree(w, p.dt)) \/ (p.dn.t # "" /\ Matching(w, p.dn) # {}) THEN Gone
    ELSE IF p.kt.t # "" /\ ~Tree(w1, p.kt) THEN Gone
    ELSE IF p.kn.t # "" THEN IF Matching(w1, p.kn) = {} THEN Gone
                             ELSE [i \in 1..Len(w1) |-> IF p.mark # "" /\ Node(w1, i, p.kn) THEN [w1[i] EXCEPT !.mi = Put(@, "Mark", p.mark)] ELSE w1[i]]
    ELSE IF p.ks.t # "" /\ Matching(w1, p.ks) = {} THEN Gone
    ELSE LET K == IF p.ks.t = "" THEN {} ELSE KeysOf(w1, Matching(w1, p.ks))
             w2 == IF p.ks.t = "" THEN w1 ELSE [i \in 1..Len(Subtrees(w1, K)) |-> LET x == Subtrees(w1, K)[i] IN IF x.k \in K THEN [x EXCEPT !.h = 0] ELSE x]
         IN IF p.ko.t = "" THEN w2
            ELSE LET D == (1..Len(w2)) \ Matching(w2, p.ko) IN IF Cardinality(D) = Len(w2) THEN Gone ELSE Rehang(w2, KeysOf(w2, D))
IsGone(q) == q = Gone

(********************************** util.Mark ********************************)
MarkNames(o) == {o.attr, "ToDo", "Bug"}
MarkMisc(mi, yes, o) == IF yes THEN Put(mi, o.attr, o.mark) ELSE IF o.add THEN mi ELSE Drop(mi, MarkNames(o))

(******************************** util.MarkDiff ******************************)
Value(x, a) == CASE a = "form" -> x.f [] a = "lemma" -> x.l [] a = "upos" -> x.u [] a = "deprel" -> x.d
                 [] a = "misc" -> IF x.mi = <<>> THEN "_" ELSE Join([i \in 1..Len(x.mi) |-> x.mi[i].k \o "=" \o x.mi[i].v], "|")
Same(x, y, A) == \A a \in SetOf(A) : Value(x, a) = Value(y, a)
RunOf(v, w, A, i, j, ahi, bhi) == LET K == {k \in 1..(IF ahi - i < bhi - j THEN ahi - i + 1 ELSE bhi - j + 1) : \A x \in 0..(k - 1) : Same(v[i + x], w[j + x], A)}
                                 IN IF K = {} THEN 0 ELSE Max(K)
\* Pairs of words matched as difflib does: the longest run of equal words, the first one, then to the left and to the right of it
RECURSIVE Matched(_, _, _, _, _, _, _)
Matched(v, w, A, alo, ahi, blo, bhi) ==
    IF alo > ahi \/ blo > bhi THEN {}
    ELSE LET run == [x \in (alo..ahi) \X (blo..bhi) |-> RunOf(v, w, A, x[1], x[2], ahi, bhi)]
             k == Max({run[x] : x \in DOMAIN run})
         IN IF k = 0 THEN {}
            ELSE LET i == Min({x[1] : x \in {y \in DOMAIN run : run[y] = k}})
                     j == Min({x[2] : x \in {y \in DOMAIN run : run[y] = k /\ y[1] = i}})
                 IN Matched(v, w, A, alo, i - 1, blo, j - 1) \cup {<<i + x, j + x>> : x \in 0..(k - 1)} \cup Matched(v, w, A, i + k, ahi, j + k, bhi)
\* Other words in the same gap between matched ones are taken one by one
Gap(M, i, side) == LET L == {x \in M : x[side] < i} IN IF L = {} THEN 0 ELSE Max({x[side] : x \in L})
Replaced(M, n, m) ==
    {<<i, j>> \in ((1..n) \ {x[1] : x \in M}) \X ((1..m) \ {x[2] : x \in M}) :
        LET a == Gap(M, i, 1) b == Gap(M, j, 2) IN
        i - a = j - b /\ Cardinality({x \in M : x[1] < i}) = Cardinality({x \in M : x[2] < j})}
\* The place of the parent, 0 for the root
Place(w, i) == IF w[i].h = 0 THEN 0 ELSE Pos(w, w[i].h)
Diff(v, w, o) ==
    LET M == Matched(v, w, o.A, 1, Len(v), 1, Len(w)) R == Replaced(M, Len(v), Len(w))
        moved(x) == ~o.ip /\ <<Place(v, x[1]), Place(w, x[2])>> \notin M \cup R \cup {<<0, 0>>}
    IN [M |-> M, R |-> R, moved |-> {x \in M : moved(x)}, movedR |-> {x \in R : moved(x)},
        p |-> ((1..Len(v)) \ {x[1] : x \in M}) \cup {x[1] : x \in {y \in M : moved(y)}},
        g |-> ((1..Len(w)) \ {x[2] : x \in M}) \cup {x[2] : x \in {y \in M : moved(y)}}]
\* What is counted: a set of pairs <<what, how many>>
Counts(q) == {<<x, Cardinality({i \in 1..Len(q) : q[i] = x})>> : x \in SetOf(q)}
Upper(a) == CASE a = "form" -> "FORM" [] a = "lemma" -> "LEMMA" [] a = "upos" -> "UPOS" [] a = "deprel" -> "DEPREL"
DiffStats(v, w, o, D) ==
    LET one(x) == FlattenSeq([a \in 1..Len(o.A) |-> LET p == Value(v[x[1]], o.A[a]) g == Value(w[x[2]], o.A[a]) IN
                                 IF p = g THEN <<>> ELSE <<Upper(o.A[a]) \o ": " \o p \o " -> " \o g>>])
        rest(n, side) == SetToSeq((1..n) \ {x[side] : x \in D.M \cup D.R})
    IN [i \in 1..Cardinality(D.moved) |-> "ONLY-PARENT-CHANGED"] \o [i \in 1..Cardinality(D.movedR) |-> "PARENT-CHANGED"]
       \o FlattenSeq([i \in 1..Cardinality(D.R) |-> one(SetToSeq(D.R)[i])])
       \o FlattenSeq([i \in 1..Len(rest(Len(w), 2)) |-> <<"ADD-WORD", "ADD-LEMMA: " \o w[rest(Len(w), 2)[i]].l>>])
       \o FlattenSeq([i \in 1..Len(rest(Len(v), 1)) |-> <<"DELETE-WORD", "DELETE-LEMMA: " \o v[rest(Len(v), 1)[i]].l>>])

(******************************* util.Normalize ******************************)
\* IDs of bundles: docs are sequences of bundles [nd: does a document start?]; stems: names of their files
NewIds(docs, stems, o) ==
    LET flat == FlattenSeq([d \in 1..Len(docs) |-> [b \in 1..Len(docs[d]) |-> [nd |-> docs[d][b], stem |-> stems[d]]]])
        step(a, x) == LET n == IF o.reset /\ x.nd THEN 1 ELSE a.n IN
                      [n |-> n + 1, ids |-> Append(a.ids, (IF o.file THEN x.stem ELSE "") \o o.prefix \o ToString(n))]
    IN FoldLeft(step, [n |-> o.start, ids |-> <<>>], flat).ids
\* Attributes of a string in the order of their names
Sorted(t) == IF t = "_" THEN t ELSE Join(SortSeq(Split(t, "|"), LAMBDA x, y : LowerLess(Split1(x, "=")[1], Split1(y, "=")[1])), "|")
\* Ords of empty nodes: those after word a, one after another; q: the words after which they are
EmptyOrds(q) == [i \in 1..Len(q) |-> ToString(q[i]) \o "." \o ToString(Cardinality({j \in 1..i : q[j] = q[i]}))]

(********************************* util.Eval *********************************)
\* What is called: P is the set of parameters given.  A document is a sequence of bundles, a bundle a sequence of trees
\* [z: zone, n: words and empty nodes [id, e], t: tokens]; C: entities [id, ms]
EvalTree(t, P, emp) ==
    (IF "tree" \in P THEN <<<<"tree", t.id>>>> ELSE <<>>)
    \o (IF "node" \in P THEN LET q == SelectSeq(t.n, LAMBDA x : emp \/ ~x.e) IN [i \in 1..Len(q) |-> <<"node", q[i].id>>] ELSE <<>>)
    \o (IF "mwt" \in P THEN [i \in 1..Len(t.t) |-> <<"mwt", t.t[i]>>] ELSE <<>>)
One(P, x, id) == IF x \in P THEN <<<<x, id>>>> ELSE <<>>
EvalDoc(doc, C, P, Z, emp) ==
    One(P, "before_doc", doc.id) \o One(P, "doc", doc.id)
    \o FlattenSeq([b \in 1..Len(doc.b) |-> LET x == doc.b[b] q == SelectSeq(x.t, LAMBDA t : Z = {} \/ t.z \in Z) IN
            One(P, "before_bundle", x.id) \o One(P, "bundle", x.id) \o FlattenSeq([i \in 1..Len(q) |-> EvalTree(q[i], P, emp)]) \o One(P, "after_bundle", x.id)])
    \o FlattenSeq([e \in 1..Len(C) |-> One(P, "coref_entity", C[e].id) \o (IF "coref_mention" \in P THEN [i \in 1..Len(C[e].ms) |-> <<"coref_mention", C[e].ms[i]>>] ELSE <<>>)])
    \o One(P, "after_doc", doc.id)
Evaluated(docs, P, Z, emp) == One(P, "start", "") \o FlattenSeq([d \in 1..Len(docs) |-> EvalDoc(docs[d], docs[d].c, P, Z, emp)]) \o One(P, "end", "")

(********************************* util.Split ********************************)
\* Sizes of the parts of n bundles
PartSizes(n, size) == IF size = 0 THEN <<>> ELSE [i \in 1..((n + size - 1) \div size) |-> IF i * size <= n THEN size ELSE n - (i - 1) * size]
=============================================================================
