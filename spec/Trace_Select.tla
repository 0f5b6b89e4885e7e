------------------------------ MODULE Trace_Select ------------------------------
EXTENDS Select, TraceLib
VARIABLE l

\* A kept node below another kept one may stay there
FilterV(r) ==
    LET left(b) == SelectSeq(b, LAMBDA t : ~IsGone(Filtered(t.w, r.p)))
        want == FlattenSeq([i \in 1..Len(r.b) |-> left(r.b[i])])
        got == FlattenSeq(r.out)
        sizes(q) == SelectSeq([i \in 1..Len(q) |-> Len(q[i])], LAMBDA n : n > 0)
        plain(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.h = 0, !.mi = <<>>]]
        heads(t, x) == {x.h} \cup (IF x.h = 0 /\ r.p.ks.t # "" /\ r.p.ko.t = "" THEN {t.w[Pos(t.w, x.k)].h} ELSE {})
        tree(t, g) == LET f == Filtered(t.w, r.p) IN
                      Must(g.z = t.z, "filter:zone")
                      \cup (IF plain(f) # plain(g.w) THEN {"filter:words"}
                            ELSE Must(\A i \in 1..Len(f) : g.w[i].h \in heads(t, f[i]) /\ (g.w[i].h = 0 \/ \E j \in 1..Len(f) : f[j].k = g.w[i].h), "filter:heads")
                                 \cup Must(\A i \in 1..Len(f) : g.w[i].mi = f[i].mi, "filter:misc"))
    IN IF r.x # "" THEN {"filter:raised"}
       ELSE IF sizes([i \in 1..Len(r.b) |-> left(r.b[i])]) # sizes(r.out) THEN {"filter:trees"}
       ELSE UNION {tree(want[i], got[i]) : i \in 1..Len(want)}

Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
MarkV(r) ==
    LET flat == FlattenSeq(r.b) got == FlattenSeq(r.out)
        want(w) == [i \in 1..Len(w) |-> [w[i] EXCEPT !.mi = MarkMisc(@, Node(w, i, r.c), r.o)]]
        em == FlattenSeq(FlattenSeq(r.e))
        yes(x) == r.o.empty /\ Node(<<[k |-> 1, h |-> 0, u |-> x.u, mi |-> x.mi]>>, 1, r.c)
        wantE == [i \in 1..Len(em) |-> IF r.o.empty THEN MarkMisc(em[i].mi, yes(em[i]), r.o) ELSE em[i].mi]
    IN IF r.x # "" THEN {"mark:raised"}
       ELSE Must(Len(flat) = Len(got) /\ \A i \in 1..Len(flat) : want(flat[i].w) = got[i].w, "mark:words")
            \cup Must(wantE = r.outE, "mark:empty")
            \cup Must(r.count = Sum([i \in 1..Len(flat) |-> Cardinality(Matching(flat[i].w, r.c))]) + Cardinality({i \in 1..Len(em) : yes(em[i])}), "mark:count")

WcV(r) ==
    LET trees == FlattenSeq([d \in 1..Len(r.docs) |-> LET q == FlattenSeq(r.docs[d]) IN [i \in 1..Len(q) |-> [t |-> q[i], first |-> i = 1]]])
        total(F(_)) == Sum([i \in 1..Len(trees) |-> F(trees[i].t)])
        mwts == total(LAMBDA t : Len(t.t))
        count == [n \in {"trees", "words", "tokens", "multi-word tokens", "empty nodes", "documents", "paragraphs"} |->
            CASE n = "trees" -> Len(trees) [] n = "words" -> total(LAMBDA t : t.n)
              [] n = "tokens" -> total(LAMBDA t : t.n - Sum([i \in 1..Len(t.t) |-> t.t[i][2] - t.t[i][1]]))
              [] n = "multi-word tokens" -> mwts [] n = "empty nodes" -> total(LAMBDA t : t.e)
              [] n = "documents" -> Cardinality({i \in 1..Len(trees) : trees[i].first \/ trees[i].t.nd})
              [] n = "paragraphs" -> total(LAMBDA t : IF t.np THEN 1 ELSE 0)]
        named == IF r.tsv THEN DOMAIN count
                 ELSE {n \in DOMAIN count : n \in {"trees", "words"} \/ (count[n] > 0 /\ (n = "tokens" => mwts > 0))}
    IN IF r.x # "" THEN {"wc:raised"}
       ELSE Must(DOMAIN r.out = named, "wc:lines") \cup Must(\A n \in DOMAIN r.out \cap named : r.out[n] = count[n], "wc:counts")

\* Rounding to tenths of percent, given as an integer: |x - 1000 a / b| <= 1/2 (in either way when in the middle)
Tenths(x, a, b) == b > 0 /\ 2 * (x * b - 1000 * a) \in (-b)..b
Near(x, lo, hi) == x >= lo /\ x <= hi
SeeV(r) ==
    LET trees == FlattenSeq(FlattenSeq(r.docs))
        all == FlattenSeq([i \in 1..Len(trees) |-> r.values[i]])
        yes == FlattenSeq([i \in 1..Len(trees) |-> [j \in 1..Len(trees[i].w) |-> Node(trees[i].w, j, r.c)]])
        I == {i \in 1..Len(all) : yes[i]}
        T == {i \in 1..Len(trees) : Matching(trees[i].w, r.c) # {}}
        every(s) == FlattenSeq([i \in 1..Len(all) |-> all[i][s]])
        match(s) == FlattenSeq([i \in 1..Len(all) |-> IF i \in I THEN all[i][s] ELSE <<>>])
        num(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})
        stat(s) ==
            LET e == every(s) q == match(s) V == SetOf(q) L == r.lines[s] n == IF r.n < Cardinality(V) THEN r.n ELSE Cardinality(V)
                shown == {L[i].v : i \in 1..Len(L)}
                a(x) == num(q, x.v) b(x) == num(e, x.v)
                \* The difference is of exact percentages
                diff(x) == 100 * (a(x) * Len(e) - b(x) * Len(q))
                size == Len(q) * Len(e)
            IN Must(r.stats[s].s = r.sel[s] /\ r.stats[s].n = Cardinality(V), "see:values")
               \cup Must(Len(L) = n /\ Cardinality(shown) = n /\ shown \subseteq V, "see:lines")
               \cup (IF shown \subseteq V THEN
                     Must(\A i \in 1..Len(L) : L[i].n = a(L[i]), "see:count")
                     \cup Must(\A i \in 1..Len(L) : (i < Len(L) => a(L[i]) >= a(L[i + 1])) /\ \A v \in V \ shown : num(q, v) <= a(L[i]), "see:top")
                     \cup Must(\A i \in 1..Len(L) : Len(q) * L[i].p \in (100 * a(L[i]) - Len(q))..(100 * a(L[i]) + Len(q)), "see:percent")
                     \cup Must(\A i \in 1..Len(L) : size * L[i].d \in (diff(L[i]) - size)..(diff(L[i]) + size), "see:delta") ELSE {})
    IN IF r.x # "" THEN {"see:raised"}
       ELSE Must(r.head[1] = Cardinality(I) /\ r.head[2] = Len(all) /\ r.head[4] = Cardinality(T) /\ r.head[5] = Len(trees), "see:head")
            \cup Must(Tenths(r.head[3], Cardinality(I), Len(all)) /\ Tenths(r.head[6], Cardinality(T), Len(trees)), "see:head-percent")
            \cup (IF Len(r.stats) # Len(r.sel) THEN {"see:stats"} ELSE UNION {stat(s) : s \in 1..Len(r.sel)})

Clean(w, o) == IF o.add THEN w ELSE [i \in 1..Len(w) |-> [w[i] EXCEPT !.mi = Drop(@, MarkNames(o))]]
DiffV(r) ==
    LET o == r.o v == Clean(r.v, o) w == Clean(r.w, o) D == Diff(v, w, o) A == D.M \cup D.R
        marked(q, I) == [i \in 1..Len(q) |-> IF i \in I THEN [q[i] EXCEPT !.mi = Put(@, o.attr, o.mark)] ELSE q[i]]
        of(side, i) == LET X == {x \in A : x[side] = i} IN IF X = {} THEN 0 ELSE (CHOOSE x \in X : TRUE)[3 - side]
        aligned(q, side) == [i \in 1..Len(q) |-> IF of(side, i) = 0 THEN q[i] ELSE [q[i] EXCEPT !.mi = Put(@, "Align", ToString(of(side, i)))]]
        wantP == LET q == marked(v, D.p) IN IF o.align \in {"both", "from-pred"} THEN aligned(q, 1) ELSE q
        wantG == LET q == marked(w, D.g) IN IF o.align \in {"both", "from-gold"} THEN aligned(q, 2) ELSE q
        no(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.mi = Drop(@, {"Align"})]]
        S == IF o.stats = 0 THEN {} ELSE Counts(DiffStats(v, w, o, D))
        L == {<<r.lines[i].e, r.lines[i].n>> : i \in 1..Len(r.lines)}
        n == IF o.stats = -1 \/ Cardinality(S) < o.stats THEN Cardinality(S) ELSE o.stats
    IN IF r.x # "" THEN {"diff:raised"}
       ELSE Must(no(r.outP) = no(wantP) /\ no(r.outG) = no(wantG), "diff:marks") \cup Must(r.outP = wantP /\ r.outG = wantG, "diff:words")
            \cup Must(\A i \in 1..2 : r.comments[i] = (Len(v) # Len(w)), "diff:comments")
            \cup Must(L \subseteq S /\ Cardinality(L) = n /\ Len(r.lines) = n, "diff:stats")
            \cup Must(\A x \in L : \A y \in S \ L : y[2] <= x[2], "diff:top")
            \cup Must(\A i \in 1..(Len(r.lines) - 1) : r.lines[i].n >= r.lines[i + 1].n, "diff:order")

NormalizeV(r) ==
    LET o == r.o
        bundles == FlattenSeq(r.docs)
        trees == FlattenSeq([i \in 1..Len(bundles) |-> [z \in 1..Len(bundles[i].z) |-> [b |-> bundles[i], z |-> bundles[i].z[z], i |-> i, first |-> z = 1]]])
        ids == IF r.new THEN NewIds(r.nds, r.stems, o) ELSE FlattenSeq([d \in 1..Len(r.docs) |-> [b \in 1..Len(r.docs[d]) |-> "s" \o ToString(b)]])
        stem == FlattenSeq([d \in 1..Len(r.docs) |-> [b \in 1..Len(r.docs[d]) |-> r.stems[d]]])
        same(t, yes) == IF yes THEN Sorted(t) ELSE t
        full(b) == b.w
        pos(e) == ToNat(Split1(e, ".")[1])
        ordsOf(b) == IF o.ords THEN EmptyOrds([i \in 1..Len(b.e) |-> pos(b.e[i])]) ELSE b.e
        dep(x) == IF x.dep = "" THEN <<>> ELSE <<"e" \o x.dep>>
    IN IF r.x # "" THEN {"normalize:raised"}
       ELSE Must(r.ids = ids, "normalize:ids")
            \cup Must(Len(r.sent) = Len(trees) /\ (r.ids = ids => \A i \in 1..Len(trees) : r.sent[i] = ids[trees[i].i] \o (IF trees[i].z = "" THEN "" ELSE "/" \o trees[i].z)), "normalize:sent_id")
            \cup (IF Len(r.feats) # Len(trees) THEN {"normalize:trees"} ELSE
                  Must(\A i \in 1..Len(trees) : r.feats[i] = [j \in 1..Len(trees[i].b.w) |-> same(trees[i].b.w[j].feats, o.feats)], "normalize:feats")
                  \cup Must(\A i \in 1..Len(trees) : r.misc[i] = [j \in 1..Len(trees[i].b.w) |-> same(trees[i].b.w[j].misc, o.misc)], "normalize:misc")
                  \cup Must(\A i \in 1..Len(trees) : r.ords[i] = ordsOf(trees[i].b), "normalize:empty")
                  \cup Must(\A i \in 1..Len(trees) : r.deps[i] = [j \in 1..Len(trees[i].b.w) |-> dep(trees[i].b.w[j])], "normalize:deps")
                  \cup Must(\A i \in 1..Len(trees) : r.newdocs[i] = (IF ~(trees[i].b.nd /\ trees[i].first) THEN "" ELSE IF o.nd THEN stem[trees[i].i] ELSE "old"), "normalize:newdoc"))

EvalV(r) ==
    LET want == Evaluated(r.docs, SetOf(r.P), SetOf(r.Z), r.emp) names == [i \in 1..Len(want) |-> want[i][1]] IN
    IF r.x # "" THEN {"eval:raised"}
    ELSE Must(r.log = want, "eval:order") \cup Must(SetOf(r.counts) = {<<x[1], x[2]>> : x \in Counts(names)}, "eval:count")

SplitV(r) ==
    LET size == IF r.parts > 0 THEN (r.n + r.parts - 1) \div r.parts ELSE r.size IN
    IF r.x # "" THEN {"split:raised"}
    ELSE Must(r.sizes = PartSizes(r.n, size), "split:sizes") \cup Must(r.order = [i \in 1..r.n |-> i], "split:order") \cup Must(r.owned, "split:owner")

Hist(r) == CASE r.op = "filter" -> FilterV(r) [] r.op = "mark" -> MarkV(r) [] r.op = "wc" -> WcV(r) [] r.op = "see" -> SeeV(r)
             [] r.op = "diff" -> DiffV(r) [] r.op = "normalize" -> NormalizeV(r) [] r.op = "eval" -> EvalV(r) [] r.op = "split" -> SplitV(r)
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
