------------------------------ MODULE CorefReport ------------------------------
(* Blocks which search and report coreference.  Sentences are as in CorefBlocks *)
(* with f: forms, u: parts of speech ("": none), dl: relations, nd: ID of the    *)
(* document which starts here or "", np: a paragraph starts here; d: entities in  *)
(* the order of the document, their mentions in order.                           *)
EXTENDS CorefBlocks

OrdStr(s, p) == LET o == OrdAt(s, p) IN ToString(o \div 10) \o (IF o % 10 = 0 THEN "" ELSE "." \o ToString(o % 10))
Spans(s, w) == LET r == Runs(w) IN [i \in 1..Len(r) |-> OrdStr(s, r[i][1]) \o (IF Len(r[i]) = 1 THEN "" ELSE "-" \o OrdStr(s, Last(r[i])))]
AsRange(s, w) == Join(Spans(s, w), ",")
Forms(s, w) == Join([i \in 1..Len(w) |-> s.f[w[i]]], " ")
Left(t, n) == IF Len(t) >= n THEN t ELSE FoldLeft(LAMBDA a, i : " " \o a, t, [i \in 1..(n - Len(t)) |-> i])
Lines(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
\* All mentions as [e: number of the entity, m]
All(d) == Lines([i \in 1..Len(d) |-> [j \in 1..Len(d[i].ms) |-> [e |-> i, m |-> d[i].ms[j]]]])
\* Values by how often they occur, those which come first if equal, as <<value, count>>
Counted(q) ==
    LET first(v) == Min({i \in 1..Len(q) : q[i] = v})
        many(v) == Cardinality({i \in 1..Len(q) : q[i] = v})
    IN SetToSortSeq({<<v, many(v)>> : v \in SetOf(q)}, LAMBDA a, b : a[2] > b[2] \/ (a[2] = b[2] /\ first(a[1]) < first(b[1])))
Ok(is, value) == value = 0 \/ (is /\ value = 1) \/ (~is /\ value = -1)

(********************************** MarkPairs ********************************)
Same(a, b) == a.e = b.e
W(x) == SetOf(x.m.w)
Disjoint(a, b) == W(a) \cap W(b) = {}
Holds(a, b) == W(a) \subseteq W(b) \/ W(b) \subseteq W(a)
Broken(x) == Len(Runs(x.m.w)) > 1
Precede(a, b) == Max(W(a)) < Min(W(b))
PairOk(s, a, b, o) ==
    /\ Ok(Same(a, b), o.same_entity)
    /\ Ok(a.m.h = b.m.h, o.same_head)
    /\ Ok(~Broken(a) /\ ~Broken(b), o.both_continuous)
    /\ Ok(Broken(a) /\ Broken(b), o.both_discontinuous)
    /\ Ok(W(a) = W(b), o.same_span)
    /\ Ok((Broken(a) \/ Broken(b)) /\ SetOf(Runs(a.m.w)) \cap SetOf(Runs(b.m.w)) # {}, o.same_subspan)
    /\ Ok(Holds(a, b), o.nested)
    /\ Ok(~Disjoint(a, b) /\ ~Holds(a, b), o.crossing)
    /\ Ok(Disjoint(a, b) /\ ~Precede(a, b) /\ ~Precede(b, a), o.interleaved)
\* The pairs of numbers of mentions in one sentence
CorefPairs(d) == LET q == All(d) IN {<<i, j>> \in (1..Len(q)) \X (1..Len(q)) : i < j /\ q[i].m.s = q[j].m.s}
Matching(S, d, o) == LET q == All(d) IN {x \in CorefPairs(d) : PairOk(S[q[x[1]].m.s], q[x[1]], q[x[2]], o)}
PairMarks(S, d, o) == LET q == All(d) M == Matching(S, d, o) IN
    [s \in 1..Len(S) |-> InOrder(UNION {W(q[x[1]]) \cup W(q[x[2]]) : x \in {y \in M : q[y[1]].m.s = s}})]
Label(S, d, x, forms) == LET s == S[x.m.s] IN d[x.e].id \o ":" \o (IF forms THEN Forms(s, x.m.w) ELSE AsRange(s, x.m.w))
\* What the first word of a mention of a matching pair may be marked with
Labels(S, d, o, s, p) == LET q == All(d) L(a, b) == Label(S, d, a, o.form) \o "+" \o Label(S, d, b, o.form) IN
    UNION {LET a == q[x[1]] b == q[x[2]] IN (IF a.m.s = s /\ Min(W(a)) = p THEN {L(a, b)} ELSE {}) \cup (IF a.m.s = s /\ Min(W(b)) = p THEN {L(b, a)} ELSE {}) : x \in Matching(S, d, o)}

(********************************* PrintMentions *****************************)
Children(s, p) == {c \in Full(s) : s.h[c] = p}
Uni(d) == Split1(d, ":")[1]
\* Words without a parent in the mention; empty nodes by their enhanced parents
Tops(s, m) == {p \in SetOf(m.w) : IF s.em[p] THEN {s.d[p][i].p : i \in 1..Len(s.d[p])} \cap SetOf(m.w) = {} ELSE s.h[p] \notin SetOf(m.w)}
Treelet(s, m) == Cardinality(Tops(s, m)) <= 1
HasCopula(s, p) == \E c \in Children(s, p) : Uni(s.dl[c]) = "cop"
Outside(s, m, p) == Children(s, p) \ SetOf(m.w)
Helper(s, c) == \/ Uni(s.dl[c]) \in {"case", "cc", "conj", "mark", "appos", "vocative", "discourse"} \/ s.dl[c] = "advmod:emph"
                \/ Uni(s.dl[c]) = "dep" /\ s.u[c] \in {"ADP", "SCONJ", "CCONJ", "PUNCT"}
Forest(s, m) == \A p \in SetOf(m.w) : HasCopula(s, p) \/ Outside(s, m, p) = {}
AlmostForest(s, m) == \A p \in SetOf(m.w) : HasCopula(s, p) \/ \A c \in Outside(s, m, p) :
    \/ Uni(s.dl[c]) = "punct" /\ (c < Min(SetOf(m.w)) \/ c > Max(SetOf(m.w)))
    \/ ~s.em[p] /\ s.h[p] \notin SetOf(m.w) /\ Helper(s, c)
AlmostContinuous(s, m) == LET E == {p \in SetOf(m.w) : ~s.em[p]} IN
    Len(Runs(m.w)) = 1 \/ E = {} \/ \A p \in Full(s) : p \in SetOf(m.w) \/ p < Min(E) \/ p > Max(E)
\* Which mentions are asked for
Asked(S, d, x, o) == LET m == x.m s == S[m.s] IN
    /\ Ok(Len(d[x.e].ms) = 1, o.singleton)
    /\ Ok(Len(m.w) = 1, o.oneword)
    /\ Ok(~Broken(x), o.continuous)
    /\ Ok(AlmostContinuous(s, m), o.almost_continuous)
    /\ Ok(\E p \in SetOf(m.w) : s.em[p], o.empty)
    /\ Ok(Treelet(s, m), o.treelet)
    /\ Ok(Forest(s, m), o.forest)
    /\ Ok(AlmostForest(s, m), o.almost_forest)
OtherForms(S, d, x) == LET ms == d[x.e].ms q == [j \in 1..Len(ms) |-> Forms(S[ms[j].s], ms[j].w)] IN Counted(SelectSeq(q, LAMBDA t : t # Forms(S[x.m.s], x.m.w)))
InOrderOf(S, d, q) == SortSeq(q, LAMBDA a, b : Before(a.m, d[a.e].id, b.m, d[b.e].id))
\* What is printed for a mention: its forms, other forms of the entity, its sentence and words
Shown(S, d, x, o) ==
    LET c == OtherForms(S, d, x) n == IF Len(c) < o.others THEN Len(c) ELSE o.others IN
    [line |-> "# Mention = " \o Forms(S[x.m.s], x.m.w),
     other |-> IF n = 0 THEN "" ELSE "# " \o ToString(n) \o " other forms:" \o FoldLeft(LAMBDA a, i : a \o " \"" \o c[i][1] \o "\"(" \o ToString(c[i][2]) \o ")", "", [i \in 1..n |-> i]),
     s |-> x.m.s, w |-> x.m.w]
Wanted(S, d, o) == SelectSeq(InOrderOf(S, d, All(d)), LAMBDA x : Asked(S, d, x, o))
Candidates(d, o) == SelectSeq(All(d), LAMBDA x : Ok(Len(d[x.e].ms) = 1, o.singleton))
FirstN(q, n) == IF n = 0 \/ Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
MentionsShown(S, d, o) == LET q == FirstN(Wanted(S, d, o), o.max) IN [i \in 1..Len(q) |-> Shown(S, d, q[i], o)]
Closing(S, d, o) ==
    LET n == Len(Wanted(S, d, o)) more == o.max # 0 /\ n > o.max IN
    (IF more THEN <<"######## Only first " \o ToString(o.max) \o " matching mentions printed. Use max_trees=0 to see all.">> ELSE <<>>)
    \o (IF o.total THEN <<"######## Total matching/all mentions = " \o ToString(n) \o " / " \o ToString(Len(Candidates(d, o)))>> ELSE <<>>)

(********************************* PrintEntities *****************************)
Starred(s, m, mark) == Join([i \in 1..Len(m.w) |-> IF mark /\ m.w[i] = m.h THEN "**" \o s.f[m.w[i]] \o "**" ELSE s.f[m.w[i]]], " ")
Address(S, m) == "s" \o ToString(m.s) \o ":" \o AsRange(S[m.s], m.w)
CommonPrefix(q) == LET n == Min({Len(q[i]) : i \in 1..Len(q)}) IN Upto(q[1], Max({k \in 0..n : \A i \in 1..Len(q) : Upto(q[i], k) = Upto(q[1], k)}))
EntityLines(S, e, o) ==
    LET n == Len(e.ms)
        t == [j \in 1..n |-> Starred(S[e.ms[j].s], e.ms[j], o.mark)]
        c == Counted(t)
        at(v) == LET J == SelectSeq([j \in 1..n |-> j], LAMBDA j : t[j] = v) IN [i \in 1..Len(J) |-> Address(S, e.ms[J[i]])]
        ranges(v) == LET q == at(v) p == CommonPrefix(q) IN
                     IF Len(q) = 1 THEN "        " \o q[1] ELSE "        " \o p \o " (" \o Join([i \in 1..Len(q) |-> From(q[i], Len(p) + 1)], " ") \o ")"
    IN <<" " \o e.id \o " has " \o ToString(n) \o " mentions:">> \o
       (IF o.aggregate THEN Lines([i \in 1..Len(c) |-> <<Left(ToString(c[i][2]), 4) \o ": " \o c[i][1]>> \o (IF o.ranges THEN <<ranges(c[i][1])>> ELSE <<>>)])
        ELSE Lines([j \in 1..n |-> <<"   " \o t[j]>> \o (IF o.ranges THEN <<"     " \o Address(S, e.ms[j])>> ELSE <<>>)]))
EntitiesShown(S, d, o) == Lines([i \in 1..Len(d) |-> IF StartsWith(d[i].id, o.start) /\ Len(d[i].ms) >= o.least THEN EntityLines(S, d[i], o) ELSE <<>>])

(************************************ Stats **********************************)
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Largest(q) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, q)
Decimal(t) == ToString(t \div 10) \o "." \o ToString(t % 10)
\* Strings for a / b rounded to k decimals (k is 0 or 1); both if it is a tie
Rounded(a, b, k) ==
    LET n == IF k = 1 THEN 10 * a ELSE a q == n \div b r == 2 * (n % b)
        str(x) == IF k = 1 THEN Decimal(x) ELSE ToString(x)
    IN (IF r <= b THEN {str(q)} ELSE {}) \cup (IF r >= b THEN {str(q + 1)} ELSE {})
Some(n) == IF n = 0 THEN 1 ELSE n
\* docs: [S, d]; a column is <<name, the strings it may be>>
Columns(docs, o) ==
    LET ents == Lines([k \in 1..Len(docs) |-> SelectSeq([i \in 1..Len(docs[k].d) |-> [k |-> k, e |-> docs[k].d[i]]],
                        LAMBDA x : IF Len(x.e.ms) = 1 THEN ~o.nosingle ELSE Len(x.e.ms) = 0 \/ ~o.nomore)])
        ms == Lines([i \in 1..Len(ents) |-> [j \in 1..Len(ents[i].e.ms) |-> LET m == ents[i].e.ms[j] IN [m |-> m, s |-> docs[ents[i].k].S[m.s]]]])
        sents == Lines([k \in 1..Len(docs) |-> docs[k].S])
        words == Sum([i \in 1..Len(sents) |-> Cardinality(Full(sents[i]))])
        elen == [i \in 1..Len(ents) |-> Len(ents[i].e.ms)]
        mlen == [i \in 1..Len(ms) |-> Cardinality({p \in SetOf(ms[i].m.w) : ~ms[i].s.em[p]})]
        int(n) == {ToString(n)}
        share(n, all) == Rounded(100 * n, Some(all), 1)
        cap(i, max) == ToString(i) \o (IF i < max THEN "" ELSE "+")
        among(q, i, max) == Cardinality({j \in 1..Len(q) : q[j] = i \/ (i = max /\ q[j] > max)})
        whose(P(_)) == Cardinality({j \in 1..Len(ms) : P(ms[j])})
        upos(x) == LET u == x.s.u[x.m.h] IN IF u \in SetOf(o.upos) THEN u ELSE "other"
    IN (IF o.basics THEN <<<<"docs", int(Cardinality({i \in 1..Len(sents) : sents[i].nd # ""}))>>, <<"sents", int(Len(sents))>>, <<"words", int(words)>>,
                           <<"empty", int(Sum([i \in 1..Len(sents) |-> Cardinality(Empties(sents[i]))]))>>>> ELSE <<>>)
       \o (IF o.entities THEN <<<<"entities", int(Len(ents))>>, <<"entities_per1k", Rounded(1000 * Len(ents), Some(words), 0)>>, <<"longest_entity", int(Largest(elen))>>,
                                <<"avg_entity", Rounded(Sum(elen), Some(Len(ents)), 1)>>>>
                             \o [i \in 1..o.emax |-> <<"c_len_" \o cap(i, o.emax), share(among(elen, i, o.emax), Len(ents))>>] ELSE <<>>)
       \o (IF o.mentions THEN <<<<"mentions", int(Len(ms))>>, <<"mentions_per1k", Rounded(1000 * Len(ms), Some(words), 0)>>, <<"longest_mention", int(Largest(mlen))>>,
                                <<"avg_mention", Rounded(Sum(mlen), Some(Len(ms)), 1)>>>>
                             \o [i \in 1..(o.mmax + 1) |-> <<"m_len_" \o cap(i - 1, o.mmax), share(among(mlen, i - 1, o.mmax), Len(ms))>>] ELSE <<>>)
       \o (IF o.details THEN <<<<"with_empty", share(whose(LAMBDA x : \E p \in SetOf(x.m.w) : x.s.em[p]), Len(ms))>>, <<"with_gaps", share(whose(LAMBDA x : Broken(x)), Len(ms))>>,
                               <<"nontreelet", share(whose(LAMBDA x : ~Treelet(x.s, x.m)), Len(ms))>>>>
                             \o [i \in 1..(Len(o.upos) + 1) |-> LET u == IF i > Len(o.upos) THEN "other" ELSE o.upos[i] IN <<"head_upos=" \o u, share(whose(LAMBDA x : upos(x) = u), Len(ms))>>] ELSE <<>>)

(********************************** CountGaps ********************************)
HasMention(d, s) == \E i \in 1..Len(d) : \E j \in 1..Len(d[i].ms) : d[i].ms[j].s = s
\* Numbers of sentences from one start to the next one
Parts(S, I, Start(_)) == FoldLeft(LAMBDA q, i : IF q = <<>> \/ Start(S[i]) THEN Append(q, <<i>>) ELSE [q EXCEPT ![Len(q)] = Append(@, i)], <<>>, I)
DocParts(S) == Parts(S, [i \in 1..Len(S) |-> i], LAMBDA s : s.nd # "")
\* Lengths of sequences of sentences without mentions in one part
EmptyRuns(d, I) == LET q == FoldLeft(LAMBDA a, i : IF HasMention(d, i) THEN Append(a, 0) ELSE [a EXCEPT ![Len(a)] = @ + 1], <<0>>, I) IN SelectSeq(q, LAMBDA n : n > 0)
EmptyPars(S, d, I) == LET q == Parts(S, I, LAMBDA s : s.np) r == SelectSeq(q, LAMBDA p : \A i \in 1..Len(p) : ~HasMention(d, p[i])) IN [i \in 1..Len(r) |-> Len(r[i])]
\* [seq, par]: counts <<length, how many>> by length and the sum
Table(q) == [rows |-> SetToSortSeq({<<n, Cardinality({i \in 1..Len(q) : q[i] = n})>> : n \in SetOf(q)}, LAMBDA a, b : a[1] < b[1]), sum |-> Sum(q)]
Tables(S, d, parts) == <<Table(Lines([i \in 1..Len(parts) |-> EmptyRuns(d, parts[i])])), Table(Lines([i \in 1..Len(parts) |-> EmptyPars(S, d, parts[i])]))>>

(************************************ MISC ***********************************)
\* q: attributes <<name, value>> of a node in order; indexes in brackets do not count
Unindexed(k) == LET a == Find(k, "[") b == FindFrom(k, "]", a + 1) IN
                IF a > 0 /\ b > a + 1 /\ IsNumber(SubSeq(k, a + 1, b - 1)) THEN Upto(k, a - 1) \o From(k, b + 1) ELSE k
WithoutMisc(q, names) == SelectSeq(q, LAMBDA x : Unindexed(x[1]) \notin SetOf(names))
IsPart(k) == StartsWith(k, "MentionMisc_") /\ Len(k) > 12 /\ Ch(k, 13) # "["
Inner(k) == LET a == Find(k, "[") IN IF a = 0 THEN From(k, 13) ELSE SubSeq(k, 13, a - 1)
Concatenated(q) ==
    LET one(a, x) == LET k == "MentionMisc" \o (LET i == Find(x[1], "[") IN IF i = 0 THEN "" ELSE From(x[1], i))
                         v == Inner(x[1]) \o ":" \o ReplaceStr(x[2], ",", "%2C")
                         J == {j \in 1..Len(a) : a[j][1] = k}
                     IN IF J = {} THEN Append(a, <<k, v>>) ELSE [a EXCEPT ![Min(J)] = <<k, @[2] \o "," \o v>>]
    IN FoldLeft(one, SelectSeq(q, LAMBDA x : ~IsPart(x[1])), SelectSeq(q, LAMBDA x : IsPart(x[1])))
\* q: attributes of all words in order; lines of the statistics
MiscLines(q, max) ==
    LET names == [i \in 1..Len(q) |-> Unindexed(q[i][1])]
        first == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : i = Min({j \in 1..Len(q) : names[j] = names[i]}))
    IN Lines([k \in 1..Len(first) |->
        LET v == SelectSeq(q, LAMBDA x : Unindexed(x[1]) = names[first[k]])
            c == FirstN(Counted([i \in 1..Len(v) |-> v[i][2]]), max)
        IN <<"", names[first[k]] \o "\t" \o ToString(Len(v))>> \o [i \in 1..Len(c) |-> "\t" \o c[i][1] \o "\t" \o ToString(c[i][2])]])
=============================================================================
