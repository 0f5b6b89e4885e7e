-------------------------- MODULE MC_Contractions --------------------------
EXTENDS Contractions, TLC, Json
CONSTANTS N, Emit
VARIABLES lang, w, done
S == [w |-> w, tk |-> <<>>]
Kinds(g) ==
    CASE g = "es" -> {<<"al", "ADP", "case">>, <<"Del", "ADP", "root">>, <<"x", "NOUN", "dep">>, <<"verlo", "VERB", "xcomp">>}
      [] g = "fr" -> {<<"du", "ADP", "case">>, <<"auquel", "ADP", "obl">>, <<"x", "NOUN", "dep">>, <<"y", "ADV", "fixed">>}
      [] g = "pt" -> {<<"do", "ADP", "case">>, <<"do", "DET", "obl">>, <<"y", "ADP", "fixed">>, <<"veja-se", "VERB", "xcomp">>}
      [] g = "cs" -> {<<"aby", "SCONJ", "mark">>, <<"Kdyby", "SCONJ", "fixed">>, <<"x", "VERB", "advcl">>, <<"y", "ADV", "dep">>}
      [] g = "la" -> {<<"mecum", "PRON", "obl">>, <<"NONNE", "PART", "dep">>, <<"id.", "X", "dep">>, <<"x", "NOUN", "dep">>}
Langs == {"es", "fr", "pt", "cs", "la"}
Init == lang \in Langs /\ w = <<>> /\ done = FALSE
IsTree(v) == \A i \in 1..Len(v) : v[i].h \in 0..Len(v) /\ FoldLeft(LAMBDA a, z : IF a = 0 THEN 0 ELSE v[a].h, i, [z \in 1..Len(v) |-> z]) = 0
Next == \/ /\ ~done /\ Len(w) < N
           /\ \E q \in Kinds(lang), h \in 0..N :
                w' = Append(w, [k |-> Len(w) + 1, h |-> h, f |-> q[1], l |-> "l", u |-> q[2], x |-> "", d |-> q[3], fe |-> "VerbForm=Inf", mi |-> <<>>, t |-> 0])
           /\ UNCHANGED <<lang, done>>
        \/ /\ ~done /\ IsTree(w) /\ done' = TRUE /\ UNCHANGED <<lang, w>>
Spec == Init /\ [][Next]_<<lang, w, done>>
R == Divided(lang, S, 1, TRUE)
Old(v) == SelectSeq(v, LAMBDA x : x.k # -1)
\* What was there stays, in its order and with its dependents; new words depend on words which were there
KeepInv == done => LET v == Old(R.w) IN
    /\ Len(v) = Len(w)
    /\ \A i \in 1..Len(w) : v[i].k = w[i].k /\ v[i].h = w[i].h
TreeInv == done => LET r == R.w IN \A i \in 1..Len(r) : r[i].k = -1 => r[i].h \in 0..Len(w) /\ r[i].t # 0
\* Every contraction is a token of its old form with all its words next to each other, and nothing else is
TokenInv == done => LET r == R IN
    /\ \A t \in 1..Len(r.tk) : LET P == {i \in 1..Len(r.w) : r.w[i].t = t} IN
         /\ Cardinality(P) > 1 /\ P = Min(P)..Max(P)
         /\ \E i \in 1..Len(w) : w[i].f = r.tk[t].f /\ \E p \in P : r.w[p].k = w[i].k /\ Cardinality({p2 \in P : r.w[p2].k # -1}) = 1
    /\ \A i \in 1..Len(r.w) : r.w[i].t = 0 => r.w[i] = w[r.w[i].k]
\* No word is a contraction any more
OnceInv == done => \A i \in 1..Len(R.w) : Analysis(lang, R, i, TRUE).f = ""
EmitInv == (Emit /\ done) => PrintT("@@STIM " \o ToJson([lang |-> lang, w |-> w]))
=============================================================================
