--------------------------- MODULE MC_CorefFormats ---------------------------
(* Exhaustive: up to M mentions of entities e1, b and "a" (with the ID "a-" in  *)
(* files) in a sentence of K words, and columns of CoNLL-2012 with up to B      *)
(* brackets.                                                                    *)
EXTENDS CorefFormats, Json
CONSTANTS K, M, B, Emit
VARIABLES mode, q, c

Init == mode \in {"old", "conll"} /\ q = <<>> /\ c = [p \in 1..K |-> ""]
Ids3 == {"e1", "b", "a"}
Add == /\ mode = "old" /\ Len(q) < M
       /\ \E id \in Ids3, W \in SUBSET (1..K), h \in 1..K, l \in {"", "x"} : h \in W
             /\ (l # "" => Len(q) = 0) /\ (IF q = <<>> THEN TRUE ELSE q[Len(q)].w[1] <= Min(W))
             /\ q' = Append(q, [id |-> id, w |-> InOrder(W), h |-> h, l |-> l])
       /\ UNCHANGED <<mode, c>>
Count(z) == FoldLeft(LAMBDA n, p : n + Len(Brackets(z[p])), 0, [p \in 1..K |-> p])
Bracket == /\ mode = "conll" /\ Count(c) < B
           /\ \E p \in 1..K, t \in {"(1", "1)", "(1)", "(2", "2)", "(2)"}, bar \in BOOLEAN :
                 /\ \A x \in (p + 1)..K : c[x] = ""
                 /\ IF ~StartsWith(t, "(") THEN (\A b \in SetOf(Brackets(c[p])) : ~StartsWith(b, "(")) ELSE TRUE
                 /\ c' = [c EXCEPT ![p] = IF @ = "" THEN t ELSE IF bar THEN @ \o "|" \o t ELSE @ \o t]
           /\ UNCHANGED <<mode, q>>
Next == Add \/ Bracket
Spec == Init /\ [][Next]_<<mode, q, c>>

\* The document of the mentions; links "x" lead to another entity of the document if there is any
IdSeq == SelectSeq(<<"e1", "b", "a">>, LAMBDA id : \E x \in SetOf(q) : x.id = id)
Doc == [i \in 1..Len(IdSeq) |->
          LET ms == SelectSeq(q, LAMBDA x : x.id = IdSeq[i]) other == SelectSeq(IdSeq, LAMBDA id : id # IdSeq[i]) IN
          [id |-> IdSeq[i], ty |-> IF i = 1 THEN "t" ELSE "", sa |-> IF Len(other) = 2 /\ i = 3 THEN other ELSE <<>>,
           ms |-> [j \in 1..Len(ms) |-> [s |-> 1, w |-> ms[j].w, h |-> ms[j].h, o |-> IF ms[j].l = "" THEN <<>> ELSE <<[k |-> "k", v |-> "v%2Dw"]>>,
                                         b |-> IF ms[j].l = "" \/ other = <<>> THEN <<>> ELSE <<[t |-> other[1], r |-> "x"]>>]]]]
Ords == <<[p \in 1..K |-> ToString(p)]>>
SetSa(d) == [i \in 1..Len(d) |-> [id |-> d[i].id, ty |-> d[i].ty, ms |-> {<<j, d[i].ms[j]>> : j \in 1..Len(d[i].ms)}, sa |-> SetOf(d[i].sa)]]
Same2(ms) == \A i, j \in 1..Len(ms) : i # j => <<ms[i].s, ms[i].w>> # <<ms[j].s, ms[j].w>>
\* Files of CorefUD 0.1 keep everything
OldInv == mode = "old" /\ (\A e \in SetOf(Doc) : Same2(e.ms)) =>
    LET d == Norm(Doc) a == OldStore(Doc, Ords) r == OldLoad(a, Ords, "") IN r.err = "" /\ SetSa(r.d) = SetSa(d)
\* Different IDs stay different, whatever they are
IdInv == mode = "old" => LET with(h) == OldLoad(OldStore([i \in 1..Len(Doc) |-> LET e == Doc[i] n(t) == IF t = "a" THEN "b-" ELSE t IN
                             [e EXCEPT !.id = n(@), !.sa = [k \in 1..Len(@) |-> n(@[k])], !.ms = [k \in 1..Len(@) |-> [@[k] EXCEPT !.b = [x \in 1..Len(@) |-> [@[x] EXCEPT !.t = n(@)]]]]]], Ords), Ords, h) IN
             with("").err = "" /\ Len(with("").d) = Len(Doc) /\ Cardinality({e.id : e \in SetOf(with("_").d)}) = Len(Doc)
\* Tags are nested, and words are in the elements of their mentions
TagInv == mode = "old" =>
    LET R == AllRuns(Doc) t == Tags(R, K) r == ReadTags(t.ev) IN
    /\ ~r.bad /\ r.open = <<>> /\ t.open = <<>>
    /\ \A p \in 1..K : LET in == [i \in 1..Len(r.in[p]) |-> R[r.in[p][i]].m] IN
          SetOf(in) = Shown(Doc, 1, p) /\ Cardinality(SetOf(in)) = Len(in)
    /\ \A i \in 1..Len(R) : Cardinality({k \in 1..Len(t.ev) : t.ev[k] = <<"<", i>>}) = Len(CutWords(R[i].w, Cuts(R, i)))
\* All brackets are closed: the same mentions as if the brackets were those of CorefUD
Closed == LET z == FoldLeft(LAMBDA st, p : FoldLeft(LAMBDA y, t : LET n == NumOf(t) d == (IF StartsWith(t, "(") THEN 1 ELSE 0) - (IF EndsWith(t, ")") THEN 1 ELSE 0) IN
                  [y EXCEPT ![n] = IF @ < 0 THEN @ ELSE @ + d], st, Brackets(c[p])), [n \in {"1", "2"} |-> 0], [p \in 1..K |-> p]) IN z["1"] = 0 /\ z["2"] = 0
Turned(t) == LET q1 == Brackets(t) z == SelectSeq(q1, LAMBDA x : ~StartsWith(x, "(")) o == SelectSeq(q1, LAMBDA x : StartsWith(x, "(")) IN
             FoldLeft(LAMBDA a, x : a \o ReplaceStr(ReplaceStr(x, "1", "n_e1"), "2", "n_e2"), "", z \o o)
ConllInv == mode = "conll" /\ Closed =>
    LET d == Conll(<<[n |-> "n", s |-> <<[p \in 1..K |-> [f |-> "w", c |-> c[p]]]>>]>>)
        a == <<[p \in 1..K |-> [e |-> Turned(c[p]), b |-> "", s |-> ""]]>>
        r == Load(a, <<"eid", "etype", "head", "other">>, <<"">>)
    IN r.err = "" /\ r.d = d
EmitInv == Emit => (IF mode = "conll" /\ Closed THEN PrintT("@@STIM " \o ToJson([c |-> c])) ELSE IF mode = "old" /\ Len(q) = M THEN PrintT("@@STIM " \o ToJson([d |-> Doc])) ELSE TRUE)
Inv == OldInv /\ IdInv /\ TagInv /\ ConllInv
=============================================================================
