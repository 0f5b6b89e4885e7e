---------------------------- MODULE Trace_Conllu ----------------------------
(* Records: a CoNLL-U file read and written again ("roundtrip"), a document   *)
(* built by API calls and written ("build"), a file with arbitrary HEADs read  *)
(* ("heads"), a file with a wrong number of columns read ("columns").          *)
EXTENDS Conllu, TraceLib
VARIABLE l

PairSet(m) == {<<k, m[k]>> : k \in DOMAIN m}
RowSet(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
SameTree(s, o) ==
    Must(o.sid = s.sid /\ o.zone = s.zone, "sent-id") \cup Must(o.text = s.text, "text")
    \cup Must(o.nd = s.nd /\ o.np = s.np, "newdoc-newpar") \cup Must(RowSet(o.js) = PairSet(s.js), "json")
    \cup Must(o.w = s.w, "words") \cup Must(o.e = s.e, "empty-nodes") \cup Must(o.m = s.m, "tokens")
SameDoc(d, o) ==
    LET s == ShownDoc(d) IN
    Must(RowSet(o.dj) = PairSet(d.dj), "doc-json") \cup Must(o.ge = d.ge, "global-entity")
    \cup IF Len(o.b) # Len(s) THEN {"bundles"}
         ELSE UNION {Must(o.b[i].id = s[i].id, "bundle-id") \cup
                     IF Len(o.b[i].trees) # Len(s[i].trees) THEN {"trees"}
                     ELSE UNION {SameTree(s[i].trees[j], o.b[i].trees[j]) : j \in 1..Len(s[i].trees)} : i \in 1..Len(s)}
Written2(d, outs) == UNION {Must(outs[i].x = "", "write:raised") \cup
                            Must(outs[i].x = "" => outs[i].lines = WriteDoc(d, outs[i].opt), "write:lines") : i \in 1..Len(outs)}

RoundTrip(r) == IF r.x # "" THEN {"read:raised"}
                ELSE LET d == ReadDoc(r.in) IN SameDoc(d, r.doc) \cup Written2(d, r.outs)
Mapped(pairs) == SetKeys(pairs, EmptyMap)
Build(r) == IF r.x # "" THEN {"build:raised"}
            ELSE LET d == [bundles |-> r.in.bundles, dj |-> Mapped(r.in.dj), ge |-> r.in.ge]
                 IN SameDoc([d EXCEPT !.bundles = [i \in 1..Len(d.bundles) |-> [d.bundles[i] EXCEPT !.trees = [j \in 1..Len(@) |-> TakeOver(@[j])]]]], r.doc)
                    \cup Written2([d EXCEPT !.bundles = [i \in 1..Len(d.bundles) |-> [d.bundles[i] EXCEPT !.trees = [j \in 1..Len(@) |-> TakeOver(@[j])]]]], r.outs)

(************************ attachments of a file (F02) ************************)
\* heads h: -1 stands for "_"; anything outside 0..n is out of range
Climb(h, i, k) == LET RECURSIVE go(_, _) go(x, left) == IF left = 0 \/ x = 0 THEN x ELSE go(h[x], left - 1) IN go(i, k)
OnCycle(h) == {i \in 1..Len(h) : \E k \in 1..Len(h) : Climb(h, i, k) = i}
\* the cycles as sets of words
Cycles(h) == {{j \in OnCycle(h) : \E k \in 0..Len(h) : Climb(h, i, k) = j} : i \in OnCycle(h)}
Heads(r) ==
    LET n == Len(r.h)
        missing == \E i \in 1..n : r.h[i] = "_"
        num == [i \in 1..n |-> IF r.h[i] = "_" THEN 0 ELSE IF IsNumber(r.h[i]) THEN ToNat(r.h[i]) ELSE -1]
        inrange == \A i \in 1..n : num[i] \in 0..n
        cyc == IF inrange THEN Cycles(num) ELSE {}
        refuse == ~inrange \/ (missing /\ r.strict) \/ (cyc # {} /\ ~r.fix)
    IN IF refuse THEN Must(r.x # "", "heads:accepted")
       ELSE IF r.x # "" THEN {"heads:refused"}
       ELSE LET moved == {i \in 1..n : r.r[i] # num[i]} IN
            Must(\A i \in moved : r.r[i] = 0, "heads:changed")
            \cup Must(\A c \in cyc : Cardinality(c \cap moved) = 1, "heads:cycle") \cup Must(moved \subseteq UNION cyc, "heads:moved")
            \cup Must(r.ok, "heads:tree")
Columns(r) == LET bad == \E i \in 1..Len(r.n) : r.n[i] # 10 IN
    IF bad /\ r.strict THEN Must(r.x # "", "columns:accepted")
    ELSE IF r.x # "" THEN {"columns:refused"}
    ELSE Must(r.w = r.want, "columns:words")

Verdict(r) == CASE r.k = "hang" -> {"did-not-return"}
                [] r.op = "roundtrip" -> RoundTrip(r)
                [] r.op = "build" -> Build(r)
                [] r.op = "heads" -> Heads(r)
                [] r.op = "columns" -> Columns(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
