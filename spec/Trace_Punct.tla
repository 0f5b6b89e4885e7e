------------------------------ MODULE Trace_Punct ------------------------------
EXTENDS Punct, TraceLib
VARIABLE l

Clauses(r) ==
    IF r.x # "" THEN {"raised"}
    ELSE IF Len(r.out) # Len(r.w) \/ ~IsTree(r.out) THEN {"tree"}
    ELSE LET want == Punctuated(r.w, r.o) reached == Reached(r.w, r.out, r.o) all(same(_, _)) == \A i \in 1..Len(want) : same(want[i], r.out[i]) IN
         Must(all(LAMBDA a, b : a.f = b.f /\ a.l = b.l /\ a.u = b.u), "words") \cup Must(all(LAMBDA a, b : a.h = b.h), "heads")
         \cup Must(all(LAMBDA a, b : a.d = b.d), "relations") \cup Must(all(LAMBDA a, b : a.ed = b.ed), "enhanced")
         \cup {g \in DOMAIN reached : ~reached[g]}
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE {"punct:" \o c : c \in Clauses(r)}
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
