--------------------------- MODULE Trace_CorefReport ---------------------------
EXTENDS CorefReport, TraceLib
VARIABLE l

PairsV(r) ==
    LET M == Matching(r.S, r.d, r.o) q == All(r.d) IN
    Must(r.msg = IF r.o.total THEN <<Len(q), Cardinality(M), Cardinality(CorefPairs(r.d))>> ELSE <<>>, "counts")
    \cup (IF r.o.mark THEN Must(r.marks = PairMarks(r.S, r.d, r.o), "marks")
            \cup Must(\A i \in 1..Len(r.labels) : LET b == r.labels[i] IN b.t \in Labels(r.S, r.d, r.o, b.s, b.p), "labels")
            \cup Must(\A x \in M : (\E y \in M : y # x /\ q[y[1]].m.s = q[x[1]].m.s) \/ \E i \in 1..Len(r.labels) : r.labels[i].s = q[x[1]].m.s, "no-label")
          ELSE Must(\A i \in 1..Len(r.marks) : r.marks[i] = <<>>, "marks"))
MentionsV(r) ==
    LET want == MentionsShown(r.S, r.d, r.o) n == Len(want)
        all(same(_, _)) == \A i \in 1..n : same(want[i], r.out[i])
        once(q) == SetOf(q)
    IN Must(r.close = Closing(r.S, r.d, r.o), "totals") \cup Must(r.left = 0, "marks-stay")
       \cup (IF Len(r.out) # n THEN {"selection"}
             ELSE IF r.o.shuffle THEN (IF r.o.max # 0 THEN {} ELSE Must(once(want) = once(r.out), "selection"))
             ELSE Must(all(LAMBDA a, b : a.line = b.line /\ a.s = b.s), "selection") \cup Must(all(LAMBDA a, b : a.w = b.w), "shown-words")
                  \cup Must(all(LAMBDA a, b : a.other = b.other), "other-forms"))
StatsV(r) == LET want == Columns(r.docs, r.o) IN
    IF Len(want) # Len(r.out) THEN {"columns"}
    ELSE {want[i][1] : i \in {i \in 1..Len(want) : r.out[i][2] \notin want[i][2]}} \cup Must(\A i \in 1..Len(want) : r.out[i][1] \in {"", want[i][1]}, "columns")
\* Sections of the report of one document, or of all
Section(t, i, label) == [kind |-> IF i = 1 THEN "SEQ" ELSE "PAR", label |-> label, rows |-> t[i].rows, sum |-> t[i].sum]
Both(t, label) == <<Section(t, 1, label), Section(t, 2, label)>>
GapsV(r) ==
    LET one(k) == LET S == r.docs[k].S d == r.docs[k].d P == DocParts(S) IN
                  (IF r.o.newdoc THEN Lines([i \in 1..Len(P) |-> Both(Tables(S, d, <<P[i]>>), S[P[i][1]].nd)]) ELSE <<>>)
                  \o (IF r.o.file THEN Both(Tables(S, d, P), "FILE") ELSE <<>>)
        all == LET f(i) == Table(Lines([k \in 1..Len(r.docs) |-> LET S == r.docs[k].S d == r.docs[k].d P == DocParts(S) IN
                                        Lines([j \in 1..Len(P) |-> IF i = 1 THEN EmptyRuns(d, P[j]) ELSE EmptyPars(S, d, P[j])])])) IN <<f(1), f(2)>>
    IN Must(r.out = Lines([k \in 1..Len(r.docs) |-> one(k)]) \o (IF r.o.total THEN Both(all, "TOTAL") ELSE <<>>), "report")
MiscV(r) ==
    CASE r.o.b = "remove" -> Must(\A i \in 1..Len(r.q) : SetOf(r.out[i]) = SetOf(WithoutMisc(r.q[i], r.o.names)) /\ Len(r.out[i]) = Len(WithoutMisc(r.q[i], r.o.names)), "remove")
      [] r.o.b = "concat" -> Must(\A i \in 1..Len(r.q) : SetOf(r.out[i]) = SetOf(Concatenated(r.q[i])) /\ Len(r.out[i]) = Len(Concatenated(r.q[i])), "concat")
      [] r.o.b = "stats" -> Must(r.out = MiscLines(Lines(r.q), r.o.max), "stats")
Verdict(r) ==
    IF r.k = "hang" THEN {"did-not-return"}
    ELSE IF r.x # "" THEN {r.op \o ":raised"}
    ELSE {r.op \o ":" \o c : c \in CASE r.op = "pairs" -> PairsV(r) [] r.op = "mentions" -> MentionsV(r) [] r.op = "entities" -> Must(r.out = EntitiesShown(r.S, r.d, r.o), "lines")
                                     [] r.op = "stats" -> StatsV(r) [] r.op = "gaps" -> GapsV(r) [] r.op = "misc" -> MiscV(r)}
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
