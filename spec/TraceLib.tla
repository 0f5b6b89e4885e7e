------------------------------ MODULE TraceLib ------------------------------
(* What every conformance module shares: the log recorded from the real code  *)
(* and how verdicts are printed.  One log line is one record; the trace       *)
(* module advances by exactly one line per step and prints every record on    *)
(* which a clause of the specification fails, then takes over the observed    *)
(* state so that the rest of the log is still examined.                       *)
EXTENDS TLC, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TLV_LOG)
Start == atoi(IOEnv.TLV_START)

\* A set of clause names -> a tuple the driver reads
Bad(line, clauses) == PrintT("@@BAD " \o ToJson([l |-> line, c |-> SetToSeq(clauses)]))
Done(line) == PrintT("@@DONE " \o ToJson([n |-> line]))

\* A clause is listed exactly when its condition fails.
Must(cond, name) == IF cond THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
Range1(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Range1(s)) = Len(s)
=============================================================================
