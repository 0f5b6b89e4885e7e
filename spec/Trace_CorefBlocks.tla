--------------------------- MODULE Trace_CorefBlocks ---------------------------
EXTENDS CorefBlocks, TraceLib
VARIABLE l

Mentions(d) == {<<i, j>> : i \in 1..Len(d), j \in 1..Max({0} \cup {Len(d[z].ms) : z \in 1..Len(d)})}
Is(d, x) == x[2] <= Len(d[x[1]].ms)
\* Words know the mentions of entities they are in, and no other ones
Known3(op, d, c) ==
    Must(\A s \in 1..Len(c) : \A p \in 1..Len(c[s]) : NoDup(c[s][p])
            /\ SetOf(c[s][p]) = {x \in Mentions(d) : Is(d, x) /\ d[x[1]].ms[x[2]].s = s /\ p \in SetOf(d[x[1]].ms[x[2]].w)}, op \o ":words")
\* The same, in any order of mentions of an entity
Bag(ms) == {<<m, Cardinality({i \in 1..Len(ms) : ms[i] = m})>> : m \in SetOf(ms)}
Part(ms, F(_)) == LET q == [i \in 1..Len(ms) |-> F(ms[i])] IN {<<x, Cardinality({i \in 1..Len(q) : q[i] = x})>> : x \in SetOf(q)}
SameEnts(op, want, got) ==
    IF [i \in 1..Len(want) |-> want[i].id] # [i \in 1..Len(got) |-> got[i].id] THEN {op \o ":entities"}
    ELSE LET all(F(_)) == \A i \in 1..Len(want) : Part(want[i].ms, F) = Part(got[i].ms, F) IN
         Must(all(LAMBDA m : <<m.s, m.w>>), op \o ":spans") \cup Must(all(LAMBDA m : <<m.s, m.h>>), op \o ":heads")
         \cup Must(all(LAMBDA m : <<m.s, m.o>>), op \o ":other") \cup Must(all(LAMBDA m : <<m.s, m.b>>), op \o ":bridging")
         \cup Must(all(LAMBDA m : m), op \o ":mentions")
         \cup Must(\A i \in 1..Len(want) : want[i].ty = got[i].ty /\ want[i].sa = got[i].sa, op \o ":types")
Spans(d) == [i \in 1..Len(d) |-> Part(d[i].ms, LAMBDA m : <<m.s, m.w>>)]
Once(q) == [i \in 1..Len(q) |-> {<<x, 1>> : x \in q[i]}]
\* Every mention left is one of the old ones of its entity, but for its words
From2(d, e) == \A i \in 1..Len(d) : \A m \in SetOf(e[i].ms) : \E n \in SetOf(d[i].ms) : n.s = m.s /\ n.h = m.h /\ n.o = m.o /\ n.b = m.b
IdsOf(d) == [i \in 1..Len(d) |-> d[i].id]
Samespan(r) ==
    IF IdsOf(r.d) # IdsOf(r.d2) THEN {"samespan:entities"}
    ELSE Must(Spans(r.d2) = Once(MergeSame(r.d, r.o.same)), "samespan:spans") \cup Must(From2(r.d, r.d2), "samespan:mentions")
InterleavedV(r) ==
    IF IdsOf(r.d) # IdsOf(r.d2) THEN {"interleaved:entities"}
    ELSE LET want == Interleaving(r.d, r.o)
             \* a merged mention with the same words as another one is not kept
             two(d) == \E i, j \in 1..Len(d) : i # j /\ want[i] \cap want[j] # {}
         IN (IF AtMostTwo(r.d) /\ r.o.same /\ ~two(r.d) /\ \A i \in 1..Len(r.d) : NoDup([j \in 1..Len(r.d[i].ms) |-> <<r.d[i].ms[j].s, r.d[i].ms[j].w>>])
             THEN Must(Spans(r.d2) = Once(want), "interleaved:spans") ELSE {})
            \cup Must(From2(r.d, r.d2), "interleaved:mentions")
            \cup Must(\A i \in 1..Len(r.d) : \A m \in SetOf(r.d2[i].ms) : Ws(m) \subseteq UNION {Ws(n) : n \in {x \in UNION {SetOf(e.ms) : e \in SetOf(r.d)} : x.s = m.s}}, "interleaved:added")
\* Two mentions of a document have to share nothing but be well separated: used for words marked by a block
MarksOk(r) == Must(\A s \in 1..Len(r.marks) : SetOf(r.marks[s]) = Marked(r.d, s, r.kind, r.o), r.kind \o ":marks")
Links(r) ==
    LET n == r.n C == Clusters(n)
        got == {{r.flat[m.s][m.w[1]] : m \in SetOf(e.ms)} : e \in {x \in SetOf(r.d2) : x.ms # <<>>}}
        all == UNION {{m : m \in SetOf(e.ms)} : e \in SetOf(r.d2)}
        at(m) == r.flat[m.s][m.w[1]]
        want(i) == IF n[i].inf = "" THEN <<>> ELSE <<[k |-> "infstat", v |-> n[i].inf]>>
        cof(i) == IF n[i].cof = "" THEN <<>> ELSE <<[k |-> "coreftype", v |-> n[i].cof]>>
        whose(i) == CHOOSE e \in SetOf(r.d2) : \E m \in SetOf(e.ms) : at(m) = i
    IN Must(got = C /\ Cardinality({e \in 1..Len(r.d2) : r.d2[e].ms # <<>>}) = Cardinality(C), "links:entities")
       \cup Must(\A m \in all : Len(m.w) = 1 /\ m.h = m.w[1], "links:spans")
       \cup (IF got # C THEN {} ELSE
             Must(\A m \in all : m.o = cof(at(m)) \o want(at(m)), "links:other")
             \cup Must(\A m \in all : {<<x.t, x.r>> : x \in SetOf(m.b)} = {<<whose(b[2]).id, n[b[1]].rel>> : b \in {y \in Bridges(n) : y[1] = at(m)}}, "links:bridging"))
       \cup Must(r.left = (IF r.o.del THEN <<>> ELSE r.left), "links:attributes")
       \cup Must(NoDup(IdsOf(r.d2)), "links:ids")
DeleteV(r) ==
    Must(~r.o.coref \/ (r.d2 = <<>> /\ r.notes = 0), "delete:coref")
    \cup Must(~r.o.misc \/ r.misc = 0, "delete:misc") \cup Must(r.space = r.space0, "delete:space")
    \cup (IF ~r.o.coref /\ ~r.o.empty /\ (r.loaded \/ ~r.o.misc) THEN SameEnts("delete", r.d, r.d2) ELSE {})
    \cup Must(\A s \in 1..Len(r.S) : \A p \in Full(r.S[s]) : r.H2[s][p] = r.S[s].h[p], "delete:heads")
    \cup Must(\A s \in 1..Len(r.S) : r.E2[s] = (IF r.o.empty THEN <<>> ELSE InOrder(Empties(r.S[s]))), "delete:empty")
    \cup Must(\A s \in 1..Len(r.S) : LET t == IF r.o.empty THEN NoEmpty(r.S[s]) ELSE r.S[s] IN
                 \A p \in Full(r.S[s]) : {<<x.p, x.r>> : x \in SetOf(r.D2[s][p])} = Deps(t, p), "delete:deps")
SingleV(r) == Must(\A s \in 1..Len(r.S) : \A p \in Empties(r.S[s]) : SingleOk(r.S[s], p, {<<x.p, x.r>> : x \in SetOf(r.D2[s][p])}), "single:parents")
              \cup Must(\A s \in 1..Len(r.S) : \A p \in Full(r.S[s]) : {<<x.p, x.r>> : x \in SetOf(r.D2[s][p])} = Deps(r.S[s], p), "single:others")
Renumber(r) == SameEnts("ids", IndexAll(r.d, r.o.start, r.o.prefix), r.d2)
                \cup Must(r.keys = IdsOf(r.d2), "ids:dictionary")
                \cup SameEnts("ids2", IndexAll(r.e, r.o.start + Len(r.d), r.o.prefix), r.e2)
Sum2(d) == FoldLeft(LAMBDA n, e : n + Len(e.ms), 0, d)
Hist(r) ==
    IF r.x # "" THEN {r.op \o ":raised"}
    ELSE (CASE r.op = "heads" -> SameEnts(r.op, MoveHeads(r.S, r.d, r.o.keep), r.d2)
            [] r.op = "spans" -> SameEnts(r.op, GuessSpans(r.S, r.d), r.d2)
            [] r.op = "parens" -> SameEnts(r.op, FixParens(r.S, r.d), r.d2)
                  \cup Must(\A s \in 1..Len(r.S) : SetOf(r.marks[s]) = (IF r.o.mark THEN ParenMarks(r.S, r.d, s) ELSE {}), "parens:marks")
            [] r.op = "marks" -> MarksOk(r) \cup SameEnts(r.op, r.d, r.d2)
            [] r.op = "samespan" -> Samespan(r)
            [] r.op = "interleaved" -> InterleavedV(r)
            [] r.op = "ids" -> Renumber(r)
            [] r.op = "nocoref" -> SameEnts(r.op, OnlyCoref(r.d), OnlyCoref(r.d2)) \cup Must(IdsOf(r.d2) = IdsOf(OnlyCoref(r.d)), "nocoref:removed")
            [] r.op = "newdoc" -> SameEnts(r.op, SplitDocs(r.d, r.docs), r.d2)
            [] r.op = "links" -> Links(r)
            [] r.op = "delete" -> DeleteV(r)
            [] r.op = "single" -> SingleV(r))
         \cup (IF r.op = "delete" /\ r.o.empty THEN {} ELSE Known3(r.op, r.d2, r.c))
         \cup Must(~Storable(Cleaned(r.d2)) \/ r.backx = "", r.op \o ":store")
         \cup Must(~Storable(Cleaned(r.d2)) \/ r.backx # "" \/ r.back = Sum2(r.d2) \/ (r.op = "delete" /\ r.o.empty), r.op \o ":stored")
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
