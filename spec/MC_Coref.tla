------------------------------- MODULE MC_Coref -------------------------------
(* Exhaustive: a sentence of N words with up to M mentions of two entities.    *)
EXTENDS Coref, Json
CONSTANTS N, M, Emit
VARIABLES d

Spans == {w \in SUBSET (1..N) : w # {}}
SeqOfSet(w) == SetToSortSeq(w, LAMBDA x, y : x < y)
Init == d = <<[id |-> "a", ty |-> "x", ms |-> <<>>, sa |-> <<>>], [id |-> "b", ty |-> "", ms |-> <<>>, sa |-> <<>>]>>
Count == Len(d[1].ms) + Len(d[2].ms)
Next == Count < M /\ \E e \in 1..2, w \in Spans : \E h \in {Min(w), Max(w)}, o \in {<<>>, <<[k |-> "k", v |-> "v"]>>} :
    \* mentions of an entity are added in order
    LET m == [s |-> 1, w |-> SeqOfSet(w), h |-> h, o |-> o, b |-> <<>>] IN
    /\ o # <<>> => h = Min(w)
    /\ d[e].ms # <<>> => Before(Last(d[e].ms), "a", m, "a")
    /\ e = 1 => d[2].ms = <<>>
    /\ d' = [d EXCEPT ![e].ms = Append(@, m)]
Spec == Init /\ [][Next]_d
Full == SelectSeq(d, LAMBDA e : e.ms # <<>>)
F == <<"eid", "etype", "head", "other">>
Reload == Load(Store(Full, <<N>>, F), F, <<"">>)
\* What can be stored can be loaded again
RoundTrip == Storable(Full) => Reload.err = "" /\ Reload.d = Norm(Full)
EmitInv == (Emit /\ Full # <<>> /\ Storable(Full)) => PrintT("@@STIM " \o ToJson([d |-> Full]))
=============================================================================
