-------------------------- MODULE Trace_CorefFormats --------------------------
EXTENDS CorefFormats, TraceLib
VARIABLE l

Count2(ms, F(_)) == LET q == [i \in 1..Len(ms) |-> F(ms[i])] IN {<<x, Cardinality({i \in 1..Len(q) : q[i] = x})>> : x \in SetOf(q)}
\* Mentions with the same first and last word and as many ones are in any order
Order(ms) == [j \in 1..Len(ms) |-> <<ms[j].s, ms[j].w[1], Len(ms[j].w), Last(ms[j].w)>>]
Must3(want, got) ==
    IF [i \in 1..Len(want) |-> want[i].id] # [i \in 1..Len(got) |-> got[i].id] THEN {"entities"}
    ELSE LET all(F(_)) == \A i \in 1..Len(want) : Count2(want[i].ms, F) = Count2(got[i].ms, F) IN
         Must(\A i \in 1..Len(want) : Order(want[i].ms) = Order(got[i].ms), "order") \cup Must(all(LAMBDA m : <<m.s, m.w>>), "spans") \cup Must(all(LAMBDA m : <<m.s, m.h>>), "heads")
         \cup Must(all(LAMBDA m : <<m.s, m.o>>), "other") \cup Must(all(LAMBDA m : <<m.s, m.b>>), "bridging") \cup Must(all(LAMBDA m : m), "mentions")
         \cup Must(\A i \in 1..Len(want) : want[i].ty = got[i].ty, "types")
         \cup Must(\A i \in 1..Len(want) : SetOf(want[i].sa) = SetOf(got[i].sa), "antecedents")
\* Words know the mentions of entities they are in, and no other ones
KnownV(d, c) ==
    Must(\A s \in 1..Len(c) : \A p \in 1..Len(c[s]) :
            SetOf(c[s][p]) = {x \in UNION {{<<i, j>> : j \in 1..Len(d[i].ms)} : i \in 1..Len(d)} : d[x[1]].ms[x[2]].s = s /\ p \in SetOf(d[x[1]].ms[x[2]].w)}, "words")

\* Bridging links of mentions of the old format are written in order of entities
Sorted3(d) == [i \in 1..Len(d) |-> [d[i] EXCEPT !.ms = LET ms == @ IN SortMentions([j \in 1..Len(ms) |-> [ms[j] EXCEPT !.b = SortSeq(@, LAMBDA x, y : LinkLess(d, x, y))]], d[i].id)]]
OldV(r) ==
    LET st == OldStore(r.d, r.ords)
        junk(s, p) == LET t == r.junk[s][p] IN {x \in (IF t = "" THEN {} ELSE SetOf(Split(t, "|"))) : StartsWith(x, "Note=") \/ StartsWith(x, "ClusterIdx=") \/ StartsWith(x, "SplitWord=")}
    IN Must(\A s \in 1..Len(r.misc) : \A p \in 1..Len(r.misc[s]) : SetOf(r.misc[s][p]) = SetOf(OldMisc(st[s][p])) \cup junk(s, p), "attributes")
       \cup Must(Len(r.misc) = Len(r.ords), "sentences") \cup Must(r.head = "", "header") \cup Must(r.err = "", "back")
       \cup (IF r.err = "" THEN Must3(SortEntities(Sorted3(r.d)), r.d2) \cup KnownV(r.d2, r.c) ELSE {})
OloadV(r) ==
    LET want == OldLoad(r.a, r.ords, r.hyph) IN
    IF want.err # "" THEN Must(r.err # "", "refused")
    ELSE IF r.err # "" THEN {"error"} ELSE Must3(want.d, r.d2) \cup KnownV(r.d2, r.c) \cup Must(\A x \in SetOf(r.left) : x = "ClusterIdx=1|SplitAnte2=z", "left")
\* Documents as they are in the record, with names
Docs2(r) == [i \in 1..Len(r.D) |-> [n |-> DocName(r.D[i].raw), s |-> r.D[i].s]]
ConllV(r) ==
    LET D == Docs2(r) all == FlattenSeq([i \in 1..Len(D) |-> D[i].s])
        names == FlattenSeq([i \in 1..Len(D) |-> [j \in 1..Len(D[i].s) |-> IF j = 1 THEN D[i].n ELSE ""]])
        lemma == "lemma" \in SetOf(Split(r.cols, ","))
    IN Must(r.err = "", "error")
       \cup Must(r.texts = [i \in 1..Len(all) |-> [p \in 1..Len(all[i]) |-> all[i][p].f]], "forms") \cup Must(r.docs = names, "documents")
       \cup Must(r.lemmas = [i \in 1..Len(all) |-> [p \in 1..Len(all[i]) |-> IF lemma /\ all[i][p].le # "" THEN all[i][p].le ELSE "_"]], "columns")
       \cup (IF r.err = "" THEN Must3(Conll(D), r.d2) \cup KnownV(r.d2, r.c) ELSE {})
\* Pages
DocNo(S, s) == 1 + Cardinality({k \in 2..s : S[k].nd # ""})
Types == {"PROPN", "NOUN", "PRON", "VERB"}
Index(d, id) == CHOOSE i \in 1..Len(d) : d[i].id = id
Classes(r, R, i, k) ==
    LET e == Index(r.d, R[i].e) s == R[i].s u == r.S[s].u[R[i].h] IN
    {R[i].e, R[i].ty, "m", IF u \in Types THEN u ELSE "OTHER"}
    \cup (IF r.o.colors > 0 THEN {"c" \o Num(Colour(r.d, e, r.o.colors))} ELSE {})
    \cup (IF R[i].one THEN {"singleton"} ELSE {}) \cup (IF k > 1 THEN {"crossing"} ELSE {})
    \cup (IF \A p \in SetOf(R[i].w) : r.S[s].em[p] THEN {"empty"} ELSE {})
Lines2(r, R, i) ==
    LET s == R[i].s e == r.d[Index(r.d, R[i].e)] IN
    {"eid=" \o R[i].x, "head=" \o r.S[s].f[R[i].h], "head-upos=" \o r.S[s].u[R[i].h]} \cup (IF e.ty = "" THEN {} ELSE {"etype=" \o e.ty})
HtmlV(r) ==
    LET R == AllRuns(r.d) S == r.S
        here(s, i) == SelectSeq(r.page[s].ev, LAMBDA x : x.m = R[i].m /\ x.x = R[i].x)
        ok(s) == Len(r.page[s].w) = Len(S[s].em)
    IN Must(r.bad = "", "tags") \cup Must(r.total = DocNo(S, Len(S)) /\ r.files = [k \in 1..(r.total - 1) |-> "doc" \o Num(k + 1) \o ".html.gz"], "files")
       \cup Must(r.rows = [i \in 1..Len(r.d) |-> <<r.d[i].id, Num(Len(r.d[i].ms)), Representative(r.d[i], [s \in 1..Len(S) |-> S[s].u], [s \in 1..Len(S) |-> S[s].le], [s \in 1..Len(S) |-> S[s].f])>>], "overview")
       \cup (IF Len(r.page) # Len(S) \/ \E s \in 1..Len(r.page) : ~ok(s) THEN {"sentences"} ELSE
             Must(\A s \in 1..Len(S) : r.page[s].id = "s" \o Num(s) /\ r.page[s].doc = "doc" \o Num(DocNo(S, s)), "documents")
             \cup Must(\A s \in 1..Len(S) : r.page[s].head = (IF S[s].nd # "" THEN <<IF S[s].nd = " " THEN "doc" ELSE "doc " \o S[s].nd>> ELSE IF S[s].np THEN <<"par">> ELSE <<>>), "headings")
             \cup Must(\A s \in 1..Len(S) : (\A p \in 1..Len(S[s].em) : r.page[s].w[p].f = S[s].f[p]) /\ r.page[s].rest = "", "forms")
             \cup Must(\A s \in 1..Len(S) : \A p \in 1..Len(S[s].em) : LET w == r.page[s].w[p] IN NoDup(w.in) /\ SetOf(w.in) = Shown(r.d, s, p), "spans")
             \cup Must(\A s \in 1..Len(S) : \A p \in 1..Len(S[s].em) : LET w == r.page[s].w[p] IN w.hd = IsHead(r.d, s, p) /\ w.norm = (IF w.in = <<>> THEN 1 ELSE 0), "heads")
             \cup Must(\A i \in 1..Len(R) : LET q == here(R[i].s, i) C == CutWords(R[i].w, Cuts(R, i)) IN
                          /\ [k \in 1..Len(q) |-> q[k].w] = C
                          /\ \A k \in 1..Len(q) : q[k].id = (IF R[i].first /\ k = 1 THEN R[i].e ELSE ""), "elements")
             \cup Must(\A i \in 1..Len(R) : LET q == here(R[i].s, i) IN \A k \in 1..Len(q) : SetOf(q[k].cls) = Classes(r, R, i, k), "classes")
             \cup Must(\A i \in 1..Len(R) : LET q == here(R[i].s, i) IN \A k \in 1..Len(q) : Lines2(r, R, i) \subseteq SetOf(q[k].title), "titles")
             \cup Must(\A s \in 1..Len(S) : Len(r.page[s].ev) = FoldLeft(LAMBDA n, i : n + (IF R[i].s = s THEN Len(CutWords(R[i].w, Cuts(R, i))) ELSE 0), 0, [i \in 1..Len(R) |-> i]), "more"))
Verdict(r) ==
    IF r.k = "hang" THEN {"did-not-return"}
    ELSE IF r.x # "" THEN {r.op \o ":raised"}
    ELSE {r.op \o ":" \o c : c \in CASE r.op = "old" -> OldV(r) [] r.op = "oload" -> OloadV(r) [] r.op = "conll" -> ConllV(r) [] r.op = "html" -> HtmlV(r)}
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
