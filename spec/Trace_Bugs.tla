------------------------------ MODULE Trace_Bugs ------------------------------
EXTENDS Bugs, TraceLib
VARIABLE l

Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
\* One document: d: trees, out: the attributes Bug, stats: printed numbers
DocV(d, o, out, stats, total) ==
    LET cops == FlattenSeq([t \in 1..Len(d) |-> LET q == SelectSeq(d[t].w, LAMBDA x : Uni(x.d) = "cop") IN [i \in 1..Len(q) |-> LemmaOf(q[i])]])
        rare(T, x) == Uni(x.d) = "cop" /\ LemmaOf(x) \notin T
        oo(t) == [o EXCEPT !.lang = d[t].lang]
        words(T) == \A t \in 1..Len(d) : Len(out[t]) = Len(d[t].w)
                        /\ \A x \in 1..Len(d[t].w) : AddedTo(d[t].w[x].bug, Found(d[t].w, x, oo(t), rare(T, d[t].w[x])), out[t][x], ",")
        list(T) == FlattenSeq([t \in 1..Len(d) |-> FlattenSeq([x \in 1..Len(d[t].w) |->
                       SetToSeq({r[2] : r \in {y \in Reports(d[t].w, d[t].lang)[x] : Uni(d[t].w[x].d) # "goeswith" \/ y[2] # "goeswith-space"}})
                       \o [i \in 1..Cardinality({y \in Reports(d[t].w, d[t].lang)[x] : y[2] = "goeswith-space"}) |-> "goeswith-space"]
                       \o (IF rare(T, d[t].w[x]) THEN <<"cop-many-lemmas">> ELSE <<>>)])])
        counts(T) == LET q == SelectSeq(list(T), LAMBDA n : Wanted(n, o)) IN
                     /\ DOMAIN stats = SetOf(q) /\ \A n \in DOMAIN stats : stats[n] = Cardinality({i \in 1..Len(q) : q[i] = n})
                     /\ total = Len(q)
        TopSets == Tops(cops, o.max)
    IN Must(\E T \in TopSets : words(T), "words") \cup (IF o.save THEN Must(\E T \in TopSets : counts(T), "overview") ELSE Must(total = 0 - 1, "overview-kept"))
MarksV(r) == IF r.x # "" THEN {"marks:raised"}
             ELSE UNION {{"marks:" \o c : c \in DocV(r.docs[i], r.o, r.out[i].bugs, r.out[i].stats, r.out[i].total)} : i \in 1..Len(r.docs)}
             \cup Must(r.same, "marks:changed")

MwtV(r) == IF r.x # "" THEN {"mwt:raised"}
           ELSE LET of(i) == LET M == {k \in 1..Len(r.t) : r.t[k][1] <= i /\ i <= r.t[k][2]} IN IF M = {} THEN "" ELSE r.tb[CHOOSE k \in M : TRUE]
                    want(i) == LET b == r.b[i] v == of(i) IN IF v = "" \/ v \in Names0(b, "+") THEN b ELSE IF b = "" THEN v ELSE b \o "+" \o v
                IN Must(r.out = [i \in 1..Len(r.b) |-> want(i)], "mwt:words") \cup Must(r.outT = r.tb, "mwt:tokens")

\* Which trees are shown: those of the (first) bundle in which the block fails
FindV(r) == LET bad(i) == \E t \in 1..Len(r.b[i]) : r.b[i][t].bad
                I == {i \in 1..Len(r.b) : bad(i)}
                shown == IF I = {} THEN <<>> ELSE IF r.first THEN r.b[Min(I)] ELSE FlattenSeq([i \in 1..Len(r.b) |-> IF bad(i) THEN r.b[i] ELSE <<>>])
            IN Must(r.out = [i \in 1..Len(shown) |-> shown[i].id], "findbug:trees") \cup Must(r.same, "findbug:changed") \cup Must((r.x # "") = (r.first /\ I # {}), "findbug:raised")

Brck == {"(", ")", "[", "]", "{", "}"}
PType(f) == CASE f \in Brck -> "Brck" [] f = "." -> "Peri" [] f \in {"...", "U+2026"} -> "Elip" [] f = "," -> "Comm" [] f = ";" -> "Semi" [] f \in {":", "/"} -> "Colo"
              [] f \in {"!", "U+00A1"} -> "Excl" [] f \in {"?", "U+00BF"} -> "Qest" [] f \in {"-", "U+2013", "U+2014"} -> "Dash"
              [] f \in {"\"", "'", "`"} \cup {"U+" \o c : c \in {"201C", "201D", "201E", "2018", "2019", "201A", "00AB", "00BB", "2039", "203A", "300A", "300B", "300C", "300D", "300E", "300F"}} -> "Quot"
              [] OTHER -> ""
PSide(f) == CASE f \in {"(", "[", "{"} \cup {"U+" \o c : c \in {"00A1", "00BF", "300A", "300C", "300E"}} -> "Ini"
              [] f \in {")", "]", "}", "!", "?"} \cup {"U+" \o c : c \in {"300B", "300D", "300F"}} -> "Fin"
              [] OTHER -> ""
TypeV(r) == IF r.x # "" THEN {"type:raised"}
            ELSE Must(r.rest = r.restOut, "type:others")
                 \cup Must(\A i \in 1..Len(r.w) : r.out[i] = (IF r.w[i].u = "PUNCT" THEN [t |-> PType(r.w[i].f), s |-> PSide(r.w[i].f)] ELSE [t |-> "", s |-> ""]), "type:features")

\* Service methods of ud.MarkFeatsBugs: what is missing, then what is not allowed
FeatsV(r) == IF r.x # "" THEN {"feats:raised"}
             ELSE LET allowed(n) == \E a \in SetOf(r.allowed) : a[1] = n
                      ok(p) == \E a \in SetOf(r.allowed) : a[1] = p[1] /\ p[2] \in SetOf(a[2])
                      F == {"Feat" \o n \o "Missing" : n \in {q \in SetOf(r.required) : \A p \in SetOf(r.fe) : p[1] # q}}
                           \cup {"Feat" \o p[1] \o (IF allowed(p[1]) THEN "Value" \o p[2] ELSE "") \o "NotAllowed" : p \in {q \in SetOf(r.fe) : ~ok(q)}}
                  IN Must(AddedTo(r.bug, F, r.out, "+"), "feats:bugs")
Hist(r) == CASE r.op = "marks" -> MarksV(r) [] r.op = "mwt" -> MwtV(r) [] r.op = "find" -> FindV(r) [] r.op = "type" -> TypeV(r) [] r.op = "feats" -> FeatsV(r)
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
