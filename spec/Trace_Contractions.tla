------------------------ MODULE Trace_Contractions ------------------------
EXTENDS Contractions, TraceLib
VARIABLE l

S(r) == [w |-> r.s.w, tk |-> r.s.tk]
Same(r) ==
    LET a == Canon(Divided(r.lang, S(r), 1, r.vp)) b == Canon(r.after) n == 1..Len(a.w) IN
    IF [i \in n |-> a.w[i].k] # [i \in 1..Len(b.w) |-> b.w[i].k] THEN {"words"}
    ELSE Must([i \in n |-> a.w[i].f] = [i \in n |-> b.w[i].f], "forms")
         \cup Must([i \in n |-> <<a.w[i].h, a.w[i].d>>] = [i \in n |-> <<b.w[i].h, b.w[i].d>>], "heads")
         \cup Must([i \in n |-> <<a.w[i].l, a.w[i].u, a.w[i].x, a.w[i].fe>>] = [i \in n |-> <<b.w[i].l, b.w[i].u, b.w[i].x, b.w[i].fe>>], "annotation")
         \cup Must([i \in n |-> <<a.w[i].t, a.w[i].mi>>] = [i \in n |-> <<b.w[i].t, b.w[i].mi>>] /\ a.tk = b.tk, "tokens")
         \cup Must(r.text = r.textafter, "text")
Verdict(r) == {r.lang \o ":" \o p : p \in IF r.k = "hang" THEN {"did-not-return"} ELSE IF r.x # "" THEN {"raised"} ELSE Same(r)}
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
