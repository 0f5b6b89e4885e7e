------------------------- MODULE Trace_LangFixes -------------------------
EXTENDS LangFixes, TraceLib
VARIABLE l

SetOf(q) == {q[i] : i \in 1..Len(q)}
In(w) == [i \in 1..Len(w) |-> [w[i] EXCEPT !.fe = SetOf(@), !.mi = SetOf(@)]]
Edges(q) == SetOf(q)
Compare(want, got) ==
    IF [i \in 1..Len(want) |-> want[i].k] # [i \in 1..Len(got) |-> got[i].k] THEN {"words"}
    ELSE LET all(same(_, _)) == \A i \in 1..Len(want) : same(want[i], got[i]) IN
         Must(all(LAMBDA a, b : a.f = b.f /\ a.l = b.l), "forms") \cup Must(all(LAMBDA a, b : a.h = b.h), "heads")
         \cup Must(all(LAMBDA a, b : a.d = b.d), "relations") \cup Must(all(LAMBDA a, b : a.u = b.u /\ a.x = b.x), "tags")
         \cup Must(all(LAMBDA a, b : a.fe = b.fe), "features") \cup Must(all(LAMBDA a, b : a.mi = b.mi), "misc")
         \cup Must(all(LAMBDA a, b : Edges(a.ed) = Edges(b.ed) /\ Len(a.ed) = Len(b.ed)), "enhanced")
Clauses(r) ==
    LET w == In(r.w) IN
    IF ~Clear(r.b, w, 1) THEN {}
    ELSE IF r.x # "" THEN {"raised"}
    ELSE Compare(Fixed(r.b, w, r.tx), In(r.out))
         \cup Must(IF r.b = "pt.hyphen" THEN LET q == HyphenWords(w) IN r.tok = q.t /\ r.tx2 = (IF q.any THEN "" ELSE r.tx)
                   ELSE r.tx2 = r.tx /\ \A i \in 1..Len(r.tok) : r.tok[i] = "", "tokens")
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE {r.b \o ":" \o c : c \in Clauses(r)}
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
