------------------------------ MODULE Trace_Fixes ------------------------------
EXTENDS Fixes, TraceLib
VARIABLE l

Compare(want, got) ==
    IF Len(want) # Len(got) THEN {"words"}
    ELSE LET all(same(_, _)) == \A i \in 1..Len(want) : same(want[i], got[i]) IN
         Must(all(LAMBDA a, b : a.f = b.f /\ a.l = b.l), "words") \cup Must(all(LAMBDA a, b : a.h = b.h), "heads")
         \cup Must(all(LAMBDA a, b : a.d = b.d), "relations") \cup Must(all(LAMBDA a, b : a.u = b.u), "upos")
         \cup Must(all(LAMBDA a, b : a.mi = b.mi), "misc") \cup Must(all(LAMBDA a, b : a.ed = b.ed), "enhanced")
ProjV(r) ==
    IF Len(r.w) # Len(r.out) THEN {"words"}
    ELSE LET ok == ProjOk(r.w, r.out, r.o.label) IN {c \in {"projective", "heads", "least"} : ~ok[c]}
         \cup (IF ok.heads THEN Must(ok.marks, "marks") ELSE {})
Adv(r) == LET I == 1..Len(r.w) IN
    IF Len(r.w) # Len(r.out) THEN {"words"}
    ELSE Must(\A i \in I : r.out[i] = [r.w[i] EXCEPT !.d = r.out[i].d], "words")
         \cup Must(\A i \in I : Uni(r.out[i].d) = "advmod" => r.w[i].u = "ADV", "advmod")
         \cup Must(\A i \in I : Uni(r.w[i].d) = "advmod" /\ r.w[i].u = "ADV" => r.out[i].d = r.w[i].d, "adverbs")
Clauses(r) ==
    IF r.x # "" THEN {"raised"}
    ELSE IF ~IsTree(r.out) THEN {"tree"}
    ELSE IF r.o.b = "proj" THEN ProjV(r)
    ELSE IF r.o.b = "advmod" THEN Adv(r)
    ELSE Compare(Fixed(r.w, r.o), r.out) \cup Must(Goal(r.out, r.o), "goal")
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE {r.o.b \o ":" \o c : c \in Clauses(r)}
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
