-------------------------- MODULE Trace_CorefRelease --------------------------
EXTENDS CorefRelease, TraceLib
VARIABLE l

ValV(r) ==
    LET want == Valid(r.S) S == r.S2
        all(F(_, _)) == \A s \in 1..Len(S) : \A i \in 1..Len(S[s].w) : F(want[s].w[i], S[s].w[i])
    IN IF Len(S) # Len(want) \/ \E s \in 1..Len(S) : Len(S[s].w) # Len(want[s].w) \/ Len(S[s].tk) # Len(want[s].tk) THEN {"words"}
       ELSE Must(all(LAMBDA a, b : a.d = b.d), "relations") \cup Must(all(LAMBDA a, b : a.h = b.h), "heads") \cup Must(all(LAMBDA a, b : a.u = b.u /\ a.t = b.t), "words")
            \cup Must(all(LAMBDA a, b : b.h = 0 <=> b.d = "root"), "roots")
            \cup Must(all(LAMBDA a, b : a.sp = b.sp) /\ \A s \in 1..Len(S) : \A t \in 1..Len(S[s].tk) : want[s].tk[t].sp = S[s].tk[t].sp, "spaces")
            \cup Must(\A s \in 1..Len(S) : S[s].nd = want[s].nd /\ S[s].np = want[s].np, "documents") \cup Must(r.rest = r.rest2, "other")
\* Attributes of a mention in any order
Pairs2(m) == {<<m.o[i].k, m.o[i].v>> : i \in 1..Len(m.o)}
HarmV(r) ==
    LET want == [i \in 1..Len(r.d) |-> Harmonized(r.d[i])] got == r.d2
        all(F(_, _)) == \A i \in 1..Len(want) : \A j \in 1..Len(want[i].ms) : F(want[i].ms[j], got[i].ms[j])
    IN IF [i \in 1..Len(want) |-> <<want[i].id, Len(want[i].ms)>>] # [i \in 1..Len(got) |-> <<got[i].id, Len(got[i].ms)>>] THEN {"entities"}
       ELSE Must(\A i \in 1..Len(want) : want[i].ty = got[i].ty, "types") \cup Must(all(LAMBDA a, b : Pairs2(a) = Pairs2(b) /\ Len(a.o) = Len(b.o)), "other")
            \cup Must(all(LAMBDA a, b : a.b = b.b), "bridging") \cup Must(all(LAMBDA a, b : <<a.s, a.w, a.h>> = <<b.s, b.w, b.h>>), "spans")
            \cup Must(\A i \in 1..Len(want) : SetOf(want[i].sa) = SetOf(got[i].sa), "antecedents") \cup Must(r.head = Header(r.g), "header")
Verdict(r) ==
    IF r.k = "hang" THEN {"did-not-return"}
    ELSE IF r.x # "" THEN {r.op \o ":raised"}
    ELSE {r.op \o ":" \o c : c \in CASE r.op = "valid" -> ValV(r) [] r.op = "harmony" -> HarmV(r)}
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
