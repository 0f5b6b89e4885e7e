------------------------------ MODULE Trace_Doc ------------------------------
(* Records: a history of edits of a document ("ids"), a stream of trees       *)
(* loaded from files ("load"), two readers in parallel ("parallel"), a file   *)
(* list ("files").                                                            *)
EXTENDS TraceLib, Doc
L == INSTANCE Load
F == INSTANCE FileNames
VARIABLE l

(********************************* identifiers *******************************)
RECURSIVE IdSteps(_, _, _)
IdSteps(s, r, i) ==
    IF i > Len(r.h) THEN {}
    ELSE LET op == r.h[i]
             o == r.obs[i]
             s2 == Apply(s, op)
             after == Must((o.x = "") = Ok(s, op), "ids:" \o (IF Ok(s, op) THEN "refused@" ELSE "accepted@") \o op.o)
                      \cup Must(o.v = View(s2), "ids:view@" \o op.o) \cup Must(o.all = AllTrees(s2), "ids:trees")
                      \cup (CASE op.o = "lookup" -> Must(o.r = Lookup(s.b[op.b], op.v) /\ o.has = (o.r # ""), "ids:lookup")
                              [] op.o = "precedes" -> Must(o.r = Precedes(s, op), "ids:precedes")
                              [] OTHER -> {})
         IN IF after = {} THEN IdSteps(s2, r, i + 1) ELSE after
Ids(r) == IdSteps(Empty, r, 1)

(************************************ loading ********************************)
LoadRun(r, run, want) ==
    IF run.x # "" THEN {"load:raised"}
    ELSE Must([i \in 1..Len(run.docs) |-> run.docs[i].b] = [i \in 1..Len(want) |-> want[i].b], "load:content")
         \cup (IF Len(run.docs) # Len(want) THEN {}
               ELSE Must(\A i \in 1..Len(want) : run.docs[i].name = want[i].name, "load:docname")
                    \cup Must(r.o.merge \/ \A i \in 1..Len(want) : run.docs[i].file = want[i].file, "load:file"))
LoadV(r) == LET want == L!View(r.ts, Range1(r.keep), r.o)
            IN UNION {LoadRun(r, r.runs[i], want) : i \in 1..Len(r.runs)}
\* Trees of a second file with zone z join the bundles made by the first one, in order.
Parallel(r) ==
    IF r.x # "" THEN {"parallel:raised"}
    ELSE LET n == Max({r.n1, r.n2})
             one(i) == IF i <= r.n1 THEN "a" \o ToString(i) ELSE IF r.ids2 THEN "b" \o ToString(i) ELSE ToString(i)
             want == [i \in 1..n |->
                [id |-> one(i), n |-> i,
                 trees |-> (IF i <= r.n1 THEN <<[t |-> "x" \o ToString(i), zone |-> "", sid |-> one(i)]>> ELSE <<>>)
                           \o (IF i <= r.n2 THEN <<[t |-> "y" \o ToString(i), zone |-> r.z, sid |-> one(i) \o "/" \o r.z]>> ELSE <<>>)]]
         IN Must(r.b = want, "parallel:bundles")

Files(r) == LET want == F!Names(r.arg, r.fs, r.lists, r.stdin)
            IN IF want.bad THEN Must(r.x # "", "files:accepted")
               ELSE IF r.x # "" THEN {"files:refused"}
               ELSE Must(r.names = want.names, "files:names")
                    \cup Must(r.read = [i \in 1..Len(want.names) |-> F!Content(want.names[i], r.fs, r.stdin)], "files:content")

Verdict(r) == CASE r.k = "hang" -> {"did-not-return"}
                [] r.op = "ids" -> Ids(r)
                [] r.op = "load" -> LoadV(r)
                [] r.op = "parallel" -> Parallel(r)
                [] r.op = "files" -> Files(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
