--------------------------- MODULE Trace_Scenario ---------------------------
(* Records: a scenario parsed ("parse"), the command line ("cli"), executed   *)
(* ("exec"), a document dispatched ("disp", "eval"), output ("out").          *)
EXTENDS Scenario, TraceLib
VARIABLE l

ParseV(r) == LET p == Parse(r.toks) IN
    IF p.bad THEN Must(r.x # "", "parse:accepted")
    ELSE IF r.x # "" THEN {"parse:refused"}
    ELSE Must([i \in 1..Len(r.b) |-> r.b[i].n] = [i \in 1..Len(p.b) |-> p.b[i].n], "parse:blocks")
         \cup (IF Len(r.b) # Len(p.b) THEN {} ELSE Must(\A i \in 1..Len(p.b) : Range1(r.b[i].a) = Range1(p.b[i].a), "parse:arguments"))
Cli(r) == Must(r.x = "" /\ r.toks2 = Expand(r.toks, r.f), "cli:scenario")
ExecV(r) == IF r.x # "" THEN {"exec:raised"} ELSE Must(r.ev = Exec(r.b), "exec:events")
Disp(r) == LET want == Dispatch([r.o EXCEPT !.ov = Range1(@)], r.d) IN
    IF want.bad THEN Must(r.x # "", "disp:accepted") \cup Must(r.ev = want.ev, "disp:before-failure")
    ELSE IF r.x # "" THEN {"disp:raised"}
    ELSE Must(r.ev = want.ev, "disp:events") \cup Must(Range1(r.del) = Range1(want.del), "disp:deleted")
Eval(r) == IF r.x # "" THEN {"eval:raised"} ELSE Must(r.ev = EvalDoc([r.o EXCEPT !.on = Range1(@)], r.d), "eval:events")
Out(r) ==
    IF Conflict(r.o) THEN Must(r.x = "init", "out:accepted")
    ELSE LET short == Written(r.o, r.docs) < Len(r.docs) IN
         Must((r.x = "") = ~short /\ r.x # "init", "out:" \o (IF short THEN "accepted" ELSE "raised"))
         \cup Must(r.out = Stdout(r.o, r.docs), "out:stdout") \cup Must(Range1(r.names) = Targets(r.o, r.docs), "out:files")
         \cup Must(\A i \in 1..Len(r.names) : r.names[i] \in Targets(r.o, r.docs) => r.holds[i] = Holds(r.o, r.docs, r.names[i]), "out:content")
         \cup Must(r.restored, "out:stdout-restored")

Verdict(r) == CASE r.k = "hang" -> {"did-not-return"}
                [] r.op = "parse" -> ParseV(r)
                [] r.op = "cli" -> Cli(r)
                [] r.op = "exec" -> ExecV(r)
                [] r.op = "disp" -> Disp(r)
                [] r.op = "eval" -> Eval(r)
                [] r.op = "out" -> Out(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
