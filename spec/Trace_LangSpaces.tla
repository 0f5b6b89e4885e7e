------------------------- MODULE Trace_LangSpaces -------------------------
EXTENDS Text, TraceLib
VARIABLE l

Want(r, i) == LET s == [w |-> r.ss[i].w, tk |-> r.ss[i].tk, tx |-> r.ss[i].tx] IN
              GuessAfter(s, r.fix, IF r.lang = "en" THEN English(s, r.xp[i], r.up[i]) ELSE Romanian(s))
Clauses(r) ==
    IF r.x # "" THEN {"raised"}
    ELSE LET want == [i \in 1..Len(r.ss) |-> Want(r, i)] IN
         Must([i \in 1..Len(want) |-> <<want[i].w, want[i].tk>>] = [i \in 1..Len(r.after) |-> <<r.after[i].w, r.after[i].tk>>], "spaces")
         \cup Must([i \in 1..Len(want) |-> want[i].tx] = [i \in 1..Len(r.after) |-> r.after[i].tx], "text")
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE {r.lang \o ":" \o c : c \in Clauses(r)}
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
