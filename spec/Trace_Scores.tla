------------------------------ MODULE Trace_Scores ------------------------------
EXTENDS Scores, TraceLib
VARIABLE l

Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
\* x hundredths of percent is a / b
Percent(x, a, b) == IF b = 0 THEN x = 0 ELSE 2 * (x * b - 10000 * a) \in (-b)..b
ParsingV(r) ==
    LET q == FlattenSeq(r.docs)
        s == [i \in 1..Len(q) |-> Parsing(q[i].v, q[i].w)]
        n == Sum([i \in 1..Len(q) |-> s[i].n])
        many(F(_)) == Sum([i \in 1..Len(q) |-> F(s[i])])
    IN IF \E i \in 1..Len(q) : Len(q[i].v) # Len(q[i].w) THEN Must(StartsWith(r.x, "ValueError"), "parsing:different")
       ELSE IF r.x # "" THEN {"parsing:raised"}
       ELSE Must(r.out[1] = n, "parsing:nodes") \cup Must(Percent(r.out[2], many(LAMBDA x : x.uas), n), "parsing:UAS")
            \cup Must(Percent(r.out[3], many(LAMBDA x : x.las), n), "parsing:LAS") \cup Must(Percent(r.out[4], many(LAMBDA x : x.ulas), n), "parsing:LAS-udeprel")

F1V(r) ==
    LET q == FlattenSeq(r.docs)
        toks(w) == [i \in 1..Len(w) |-> Join([a \in 1..Len(r.A) |-> Value(w[i], r.A[a])], "_")]
        F == SetOf(r.F)
        in(z) == IF r.all THEN z ELSE SelectSeq(z, LAMBDA x : x \in F)
        ps == FlattenSeq([i \in 1..Len(q) |-> in(toks(q[i].v))])
        gs == FlattenSeq([i \in 1..Len(q) |-> in(toks(q[i].w))])
        T == SetOf(ps) \cup SetOf(gs)
        num(z, t) == Cardinality({i \in 1..Len(z) : z[i] = t})
        bag(z) == [t \in T |-> num(z, t)]
        one(i) == {bag(z) : z \in Correct(toks(q[i].v), toks(q[i].w), F, r.all)}
        plus(A, B) == {[t \in T |-> a[t] + b[t]] : a \in A, b \in B}
        bags == FoldLeft(LAMBDA A, i : plus(A, one(i)), {[t \in T |-> 0]}, [i \in 1..Len(q) |-> i])
        size(b) == FoldFunction(LAMBDA x, y : x + y, 0, b)
        t == r.totals
        shown == {r.lines[i].t : i \in 1..Len(r.lines)}
        both(x) == num(ps, x) + num(gs, x)
        n == IF r.details < Cardinality(T) THEN r.details ELSE Cardinality(T)
    IN IF r.x # "" THEN {"f1:raised"}
       ELSE Must(r.sentences = Len(q), "f1:sentences")
            \cup Must(t[1] = Len(ps) /\ t[2] = Len(gs), "f1:numbers")
            \cup Must(\E b \in bags : size(b) = t[3], "f1:correct")
            \cup Must(Percent(t[4], t[3], t[1]) /\ Percent(t[5], t[3], t[2]) /\ Percent(t[6], 2 * t[3], t[1] + t[2]) /\ Percent(r.f1, 2 * t[3], t[1] + t[2]), "f1:percents")
            \cup Must(shown \subseteq T /\ Cardinality(shown) = n /\ Len(r.lines) = n, "f1:details")
            \cup Must(\A i \in 1..Len(r.lines) : LET x == r.lines[i] IN x.n[1] = num(ps, x.t) /\ x.n[2] = num(gs, x.t), "f1:detail-numbers")
            \cup Must(shown \subseteq T => \E b \in bags : size(b) = t[3] /\ \A i \in 1..Len(r.lines) : r.lines[i].n[3] = b[r.lines[i].t], "f1:detail-correct")
            \cup Must(\A i \in 1..Len(r.lines) : LET x == r.lines[i] IN Percent(x.p[1], x.n[3], x.n[1]) /\ Percent(x.p[2], x.n[3], x.n[2]) /\ Percent(x.p[3], 2 * x.n[3], x.n[1] + x.n[2]), "f1:detail-percents")
            \cup Must(\A i \in 1..Len(r.lines) : \A y \in (T \ shown) \cup {r.lines[j].t : j \in (i + 1)..Len(r.lines)} : both(y) <= both(r.lines[i].t), "f1:detail-order")

Add(a, b) == [x \in DOMAIN a |-> a[x] + b[x]]
ConllV(r) ==
    LET q == FlattenSeq(r.docs)
        score(i) == IF r.m = "conll18" THEN Conll18(q[i].v, q[i].w) ELSE Conll17(q[i].v, q[i].w)
        s == [i \in 1..Len(q) |-> score(i)]
        t == FoldLeft(Add, [x \in DOMAIN s[1] |-> 0], s)
        raw == IF r.m = "conll18" THEN r.raw ELSE "LAS"
        M == Metrics(r.m)
        line(i) == LET m == M[i] z == r.table[i].n p == Pred(t, m) g == Gold(t, m) a == Alig(t, m) c == t[m] IN
                   IF r.counts THEN Must(z = <<c, g, p, a>>, r.m \o ":" \o m)
                   ELSE Must(Percent(z[1], c, p) /\ Percent(z[2], c, g) /\ Percent(z[3], 2 * c, p + g), r.m \o ":" \o m)
                        \cup Must(IF m = "Words" /\ r.m = "conll18" THEN z[4] = -1 ELSE Percent(z[4], c, a), r.m \o ":aligned:" \o m)
    IN IF r.x # "" THEN {r.m \o ":raised"}
       ELSE Must(r.raw_lines = (IF r.raw = "" THEN <<>> ELSE [i \in 1..Len(q) |-> <<Pred(s[i], raw), Gold(s[i], raw), Alig(s[i], raw), s[i][raw]>>]), r.m \o ":raw")
            \cup (IF ~r.results THEN Must(r.table = <<>>, r.m \o ":results")
                  ELSE IF [i \in 1..Len(r.table) |-> r.table[i].m] # M THEN {r.m \o ":metrics"}
                  ELSE Must(r.head = (IF r.counts THEN <<"Metric", "Correct", "Gold", "Predicted", "Aligned">> ELSE <<"Metric", "Precision", "Recall", "F1 Score", "AligndAcc">>), r.m \o ":head")
                       \cup UNION {line(i) : i \in 1..Len(M)})
Hist(r) == CASE r.op = "parsing" -> ParsingV(r) [] r.op = "f1" -> F1V(r) [] r.op = "conll" -> ConllV(r)
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
