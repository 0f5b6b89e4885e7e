------------------------------ MODULE Trace_Fill ------------------------------
EXTENDS Fill, TraceLib
VARIABLE l

GoneV(r) == IF r.has /\ Tells(r.tk, r.t)
            THEN Must([i \in 1..Len(r.w2) |-> r.w2[i].f] = [i \in 1..Len(r.w2) |-> Gone(r.tk, r.t, r.w, r.keep)[i].f] /\ Len(r.w2) = Len(Gone(r.tk, r.t, r.w, r.keep)), "forms")
                 \cup (IF Len(r.w2) # Len(Gone(r.tk, r.t, r.w, r.keep)) THEN {} ELSE Must(r.w2 = Gone(r.tk, r.t, r.w, r.keep), "words"))
                 \cup Must(r.tk2 = GoneTokens(r.tk, r.t), "tokens") \cup Must(r.computed = Trimmed(r.t), "text")
            ELSE Must(r.w2 = r.w /\ r.tk2 = r.tk, "changed")
Verdict(r) ==
    IF r.k = "hang" THEN {"did-not-return"}
    ELSE IF r.x # "" THEN {r.op \o ":raised"}
    ELSE {r.op \o ":" \o c : c \in
      CASE r.op = "goeswith" -> GoneV(r)
        [] r.op = "translate" -> Must(r.c2 = TranslatedAll(r.c, r.lines, r.over), "comments") \cup Must(r.blank = 0, "blank")
        [] r.op = "lemma" -> UNION {Must(r.le2[i] = Lemma(r.w[i]), r.w[i].u) : i \in 1..Len(r.w)}
        [] r.op = "mwe" -> (IF r.o = "types" THEN Must(r.a2 = Normalized(r.a), "annotations") \cup Must(r.dl2 = r.dl, "relations")
                            ELSE Must(r.a2 = r.a, "annotations") \cup Must(r.dl2 = Subtyped(r.a, r.h, r.dl), "relations"))
        [] r.op = "fixed" -> Must(r.out = FoldLeft(LAMBDA q, w : q \o Printed(w, Range1(r.known), r.forms), <<>>, r.ws), "printed")}
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
