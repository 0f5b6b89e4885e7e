-------------------------- MODULE Trace_WordEdits --------------------------
EXTENDS WordEdits, TraceLib
VARIABLE l

S(r) == [w |-> r.s.w, tk |-> r.s.tk, tx |-> r.s.tx]
A(r) == [w |-> r.after.w, tk |-> r.after.tk, tx |-> r.after.tx]
Names(w) == [i \in 1..Len(w) |-> w[i].k]
\* Are the words (kept, added, in order), their heads and deprels, and the tokens as they should be?
Same(op, want, got) ==
    LET a == Canon(want) b == Canon(got) IN
    IF Names(a.w) # Names(b.w) THEN {op \o ":words"}
    ELSE Must([i \in 1..Len(a.w) |-> a.w[i].f] = [i \in 1..Len(b.w) |-> b.w[i].f], op \o ":forms")
         \cup Must([i \in 1..Len(a.w) |-> <<a.w[i].h, a.w[i].d>>] = [i \in 1..Len(b.w) |-> <<b.w[i].h, b.w[i].d>>], op \o ":heads")
         \cup Must([i \in 1..Len(a.w) |-> <<a.w[i].t, a.w[i].sp>>] = [i \in 1..Len(b.w) |-> <<b.w[i].t, b.w[i].sp>>] /\ a.tk = b.tk, op \o ":tokens")
         \cup Must([i \in 1..Len(a.w) |-> a.w[i].m] = [i \in 1..Len(b.w) |-> b.w[i].m], op \o ":marks")
Hist(r) ==
    IF r.x # "" THEN {r.op \o ":raised"}
    ELSE CASE r.op = "removemwt" -> Same(r.op, RemoveMwt(S(r)), A(r))
           [] r.op = "join" -> Same(r.op, [S(r) EXCEPT !.w = JoinTokens(@, 1, r.v)], A(r))
           [] r.op = "asmwt" -> Same(r.op, JoinAsMwt(S(r), 1, r.revert), A(r))
           [] r.op = "fixspace" -> Same(r.op, FixSpace(S(r)), A(r))
           [] r.op = "underscores" -> Same(r.op, SplitUnderscores(S(r), r.o), A(r))
                \cup Must(r.lemmas = SplitLemmas(S(r), r.o), "underscores:lemmas") \cup Must(r.upos = SplitUpos(S(r), r.o), "underscores:upos")
           [] r.op = "addmwt" -> Same(r.op, AddMwts(S(r), 1), A(r))
           [] r.op = "comply" -> LET c == Complied(S(r), r.after, r.o) IN UNION {Must(c[k], "comply:" \o k) : k \in DOMAIN c}
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
