---------------------------- MODULE MC_CorefEdit ----------------------------
(* Exhaustive: all histories with up to two entities and M mentions in a       *)
(* sentence of N words, the last of which is an empty node.  hist is not a     *)
(* part of the view: every state is reached by one of its shortest histories.  *)
EXTENDS CorefEdit, Json
CONSTANTS N, M, Emit
VARIABLES st, hist

Ords == <<[p \in 1..N |-> IF p < N THEN Num(p) ELSE Num(N - 1) \o ".1"]>>
Sets == {W \in SUBSET (1..N) : W # {}}
Do(x) == LET r == Apply(st, x, Ords) IN hist' = Append(hist, x) /\ st' = (IF "refused" \in DOMAIN r THEN st ELSE r)
Init == st = EmptyState /\ hist = <<>>
Next == \/ Len(st.e) < 2 /\ \E id \in {"", "b", "e1", "x y"} : Do([op |-> "ent", id |-> id, ty |-> ""])
        \/ Len(st.m) < M /\ \E e \in 1..Len(st.e), W \in Sets, h \in 0..N : Do([op |-> "men", e |-> e, s |-> 1, h |-> h, ws |-> Reverse(InOrder(W)), sp |-> ""])
        \/ Len(st.m) < M /\ \E e \in 1..Len(st.e), W \in Sets, h \in 1..N :
              Do([op |-> "men", e |-> e, s |-> 1, h |-> h, ws |-> <<>>, sp |-> SpanStr(Ords[1], InOrder(W))])
        \/ \E m \in Alive(st) :
              \/ \E W \in Sets : Do([op |-> "words", m |-> m, ws |-> InOrder(W)])
              \/ \E W \in Sets : Do([op |-> "span", m |-> m, sp |-> SpanStr(Ords[1], InOrder(W))])
              \/ \E h \in 1..N : Do([op |-> "head", m |-> m, h |-> h])
              \/ \E e \in 1..Len(st.e) : Do([op |-> "move", m |-> m, e |-> e])
              \/ Do([op |-> "remove", m |-> m])
Spec == Init /\ [][Next]_<<st, hist>>
View == st
\* A mention has words in order and its head is among them
MentionInv == \A k \in 1..Len(st.m) : LET m == st.m[k] IN
                 m.w # <<>> /\ m.h \in SetOf(m.w) /\ \A i \in 1..(Len(m.w) - 1) : m.w[i] < m.w[i + 1]
IdInv == \A i, j \in 1..Len(st.e) : i # j => st.e[i].id # st.e[j].id
\* A span says what its words are
SpanInv == \A k \in 1..Len(st.m) : SpanOk(SpanStr(Ords[1], st.m[k].w)) /\ SpanWords(Ords[1], SpanStr(Ords[1], st.m[k].w)) = SetOf(st.m[k].w)
\* The order of mentions is total
OrderInv == \A k, j \in Alive(st) : k # j => (BeforeIn(st, k, j) \/ BeforeIn(st, j, k) \/ (st.m[k].e = st.m[j].e /\ st.m[k].w = st.m[j].w))
                                             /\ ~(BeforeIn(st, k, j) /\ BeforeIn(st, j, k))
EmitInv == Emit => PrintT("@@STIM " \o ToJson([n |-> N, hist |-> hist]))
=============================================================================
