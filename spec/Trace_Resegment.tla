-------------------------- MODULE Trace_Resegment --------------------------
(* Records: [d: the document before, after: sentences after, with their       *)
(* numbers n and whether they know their document (dk)].                      *)
EXTENDS Resegment, TraceLib
VARIABLE l

Plain(q) == [i \in 1..Len(q) |-> [id |-> q[i].id, tx |-> q[i].tx, w |-> q[i].w]]
Numbered(q) == \A i \in 1..Len(q) : q[i].n = i /\ q[i].dk
Words(q) == [i \in 1..Len(q) |-> [j \in 1..Len(q[i].w) |-> <<q[i].w[j].k, q[i].w[j].f, q[i].w[j].sp, q[i].w[j].t>>]]
Heads(q) == [i \in 1..Len(q) |-> [j \in 1..Len(q[i].w) |-> <<q[i].w[j].h, q[i].w[j].d>>]]
Same(r, want) ==
    Must(Words(r.after) = Words(want), r.op \o ":words") \cup Must(Heads(r.after) = Heads(want), r.op \o ":heads")
    \cup Must([i \in 1..Len(r.after) |-> r.after[i].id] = [i \in 1..Len(want) |-> want[i].id], r.op \o ":ids")
    \cup Must([i \in 1..Len(r.after) |-> r.after[i].tx] = [i \in 1..Len(want) |-> want[i].tx], r.op \o ":text")
    \cup Must(Plain(r.after) = want, r.op \o ":rest") \cup Must(r.tk = r.d.tk, r.op \o ":tokens")
    \cup Must(Numbered(r.after), r.op \o ":numbers")
Hist(r) ==
    IF r.x # "" THEN {r.op \o ":raised"}
    ELSE CASE r.op = "splitid" -> Same(r, SplitId(r.d, r.id, r.p).s)
           [] r.op = "splitmarked" -> Same(r, SplitMarked(r.d, r.v).s)
           [] r.op = "joinid" -> Same(r, JoinId(r.d, r.id).s)
           [] r.op = "joinmarked" -> Same(r, JoinMarked(r.d, r.v).s)
           [] r.op = "merge" -> Same(r, Merge(r.d).s)
           [] r.op = "split" ->
                LET size == IF r.n > 0 THEN r.n ELSE (Len(r.d.s) + r.parts - 1) \div r.parts IN
                Must([i \in 1..Len(r.docs) |-> Plain(r.docs[i])] = Chunks(r.d.s, size), "split:parts")
                \cup Must(\A i \in 1..Len(r.docs) : Numbered(r.docs[i]), "split:numbers")
           [] r.op = "segment" -> LET q == Segments(r.text, r.keep) IN
                Must([i \in 1..Len(r.after) |-> r.after[i].tx] = q, "segment:text")
                \cup Must([i \in 1..Len(r.after) |-> r.after[i].id] = [i \in 1..Len(q) |-> "i-" \o ToString(i)], "segment:ids")
                \cup Must(Numbered(r.after) /\ \A i \in 1..Len(r.after) : r.after[i].w = <<>>, "segment:rest")
           [] r.op = "gold" -> LET v == Regold(r.d.s, r.after, r.g.s, r.d.tk, r.g.tk) IN
                {"gold:" \o f : f \in {f \in DOMAIN v : ~v[f]}} \cup Must(r.gsame, "gold:changed") \cup Must(Numbered(r.after), "gold:numbers")
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
