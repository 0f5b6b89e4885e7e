----------------------------- MODULE Trace_Convert -----------------------------
EXTENDS Convert, TraceLib
VARIABLE l

Compare(want, got) ==
    IF Len(want) # Len(got) THEN {"words"}
    ELSE LET all(same(_, _)) == \A i \in 1..Len(want) : same(want[i], got[i]) IN
         Must(all(LAMBDA a, b : a.f = b.f /\ a.l = b.l /\ a.sp = b.sp), "words") \cup Must(all(LAMBDA a, b : a.h = b.h), "heads")
         \cup Must(all(LAMBDA a, b : a.d = b.d), "relations") \cup Must(all(LAMBDA a, b : a.u = b.u), "upos")
         \cup Must(all(LAMBDA a, b : Len(a.fe) = Len(b.fe) /\ SetOf(a.fe) = SetOf(b.fe)), "features")
         \cup Must(all(LAMBDA a, b : a.td = b.td), "todo") \cup Must(all(LAMBDA a, b : a.od = b.od), "orig-deprel")
Text(r, t, got) ==
    IF "text" \in SetOf(r.skip) THEN Must(got.text = t.text /\ got.comment = <<>>, "text-skipped")
    ELSE Must(got.text = TextOf(t.w, t.text), "text") \cup Must(got.comment = IF Replaced(t.w, t.text) THEN <<" ToDoOrigText = " \o t.text>> ELSE <<>>, "original-text")
Clauses(r) ==
    LET skip == SetOf(r.skip)
        pre == [i \in 1..Len(r.d) |-> Prepared(r.d[i].w, skip)]
        good == \A i \in 1..Len(r.d) : Promised(pre[i], skip)
        res == [i \in 1..Len(r.d) |-> Finished(pre[i], skip)]
        logs == [i \in 1..Len(r.d) |-> LET t == r.d[i] IN
                    [k \in 1..Len(res[i].log) |-> res[i].log[k][2]] \o (IF "text" \notin skip /\ Replaced(t.w, t.text) THEN <<"text">> ELSE <<>>)]
        all == Overview(logs)
        total == FoldLeft(LAMBDA a, q : a + Len(q), 0, logs)
    IN IF ~good THEN {}
       ELSE IF r.x # "" THEN {"raised"}
       ELSE IF Len(r.out) # Len(r.d) THEN {"trees"}
       ELSE UNION {Compare(res[i].w, r.out[i].w) \cup Text(r, r.d[i], r.out[i]) : i \in 1..Len(r.d)}
            \cup Must(r.save = (r.over # <<>>), "overview")
            \cup (IF r.save /\ r.over # <<>> THEN Must(r.over = all \o <<<<"TOTAL", total>>>>, "overview") ELSE {})
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Clauses(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
