----------------------------- MODULE Trace_Text -----------------------------
EXTENDS Text, TraceLib
VARIABLE l

Keep(q) == [i \in 1..Len(q) |-> [w |-> q[i].w, tk |-> q[i].tk, tx |-> q[i].tx]]
Hist(r) ==
    IF r.op = "write" /\ r.mode = "fatal" /\ \E i \in 1..Len(r.s) : r.s[i].tx = "" THEN Must(r.x # "", "write:accepted")
    ELSE IF r.x # "" THEN {r.op \o ":raised"}
    ELSE CASE r.op = "text" -> Must(r.out = SubText(r.s, r.sub, r.mwt), "text:computed")
           [] r.op = "tok" -> LET q == Tokenize(r.text, r.simple, r.keep) IN
                Must([i \in 1..Len(r.out) |-> r.out[i].f] = [i \in 1..Len(q) |-> q[i].f], "tok:forms")
                \cup Must(r.out = q, "tok:spaces") \cup Must(r.rest, "tok:rest")
           [] r.op = "from" -> LET want == SetSpaces(r.s, FromText(r.s)) IN Must(r.after = want, "from:spaces")
           [] r.op = "guess" ->
                LET want == [i \in 1..Len(r.ss) |-> Guess(r.ss[i], r.fix)] IN
                Must([i \in 1..Len(want) |-> <<want[i].w, want[i].tk>>] = [i \in 1..Len(r.after) |-> <<r.after[i].w, r.after[i].tk>>], "guess:spaces")
                \cup Must([i \in 1..Len(want) |-> want[i].tx] = [i \in 1..Len(r.after) |-> r.after[i].tx], "guess:text")
           [] r.op = "addtext" ->
                LET want == AddText(r.ss, r.raw, r.par) IN
                Must(Keep(want) = Keep(r.after), "addtext:spaces")
                \cup Must([i \in 1..Len(want) |-> want[i].np] = [i \in 1..Len(r.after) |-> r.after[i].np], "addtext:paragraphs")
           [] r.op = "lines" -> Must(r.out = ReadLines(r.raw, r.mode), "lines:sentences")
           [] r.op = "paragraphs" -> Must(r.out = ReadParagraphs(r.raw), "paragraphs:sentences")
           [] r.op = "write" -> Must(r.out = WriteLines(r.s, r.mode, r.newdoc, r.newpar), "write:lines")
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
