--------------------------- MODULE MC_LangFixes ---------------------------
EXTENDS LangFixes, TLC, Json
CONSTANTS N, Emit
VARIABLES b, w, done
\* form, lemma, upos, deprel
Kinds(g) ==
    CASE g = "es.tener" -> {<<"tiene", "tener", "AUX", "aux">>, <<"que", "que", "SCONJ", "mark">>, <<"va", "ir", "AUX", "cop">>, <<"x", "x", "VERB", "obj">>}
      [] g = "gl.to2" -> {<<"x", "x", "NOUN", "cop">>, <<"es", "ser", "VERB", "root">>, <<"y", "y", "ADP", "case">>, <<".", ".", "PUNCT", "punct">>}
      [] g = "ug.aux" -> {<<"x", "_", "AUX", "aux">>, <<"y", "y", "VERB", "root">>, <<"z", "z", "NOUN", "nsubj">>, <<"y", "y", "NOUN", "obj">>}
      [] g = "es.elque" -> {<<"el", "el", "DET", "det">>, <<"que", "que", "PRON", "nsubj">>, <<"en", "en", "ADP", "case">>, <<"x", "x", "VERB", "acl">>}
      [] g = "pt.hyphen" -> {<<"a", "a", "X", "dep">>, <<"-", "-", "PUNCT", "punct">>, <<"al", "al", "X", "dep">>}
      [] g = "es.excl" -> {<<"a!", "l", "X", "dep">>, <<"!a", "l", "X", "dep">>, <<"!a!", "l", "X", "dep">>, <<"!", "l", "X", "dep">>}
      [] g = "bg.dot" -> {<<"a.", "l", "X", "dep">>, <<".", "l", "PUNCT", "punct">>, <<"x", "l", "X", "dep">>}
Blocks == {"es.tener", "gl.to2", "ug.aux", "es.elque", "pt.hyphen", "es.excl", "bg.dot"}
Init == b \in Blocks /\ w = <<>> /\ done = FALSE
IsTree(v) == \A i \in 1..Len(v) : v[i].h \in 0..Len(v) /\ FoldLeft(LAMBDA a, z : IF a = 0 THEN 0 ELSE v[a].h, i, [z \in 1..Len(v) |-> z]) = 0
Next == \/ /\ ~done /\ Len(w) < N
           /\ \E q \in Kinds(b), h \in 0..N :
                w' = Append(w, [k |-> Len(w) + 1, h |-> h, f |-> q[1], l |-> q[2], u |-> q[3], x |-> "", d |-> q[4], fe |-> {}, mi |-> {},
                                ed |-> IF b \in {"es.tener", "es.elque"} /\ h <= N THEN <<[h |-> h, d |-> q[4]]>> ELSE <<>>])
           /\ UNCHANGED <<b, done>>
        \/ /\ ~done /\ IsTree(w) /\ Clear(b, w, 1) /\ done' = TRUE /\ UNCHANGED <<b, w>>
Spec == Init /\ [][Next]_<<b, w, done>>
R == Fixed(b, w, "x.")
Old(v) == SelectSeq(v, LAMBDA x : x.k # -1)
\* Every word has a head and comes to the root
TreeInv == done => LET v == R o == Old(v) pos(k) == IF k = 0 THEN 0 ELSE IF \E i \in 1..Len(o) : o[i].k = k THEN CHOOSE i \in 1..Len(o) : o[i].k = k ELSE -1 IN
    /\ IsTree([i \in 1..Len(o) |-> [o[i] EXCEPT !.h = pos(@)]])
    /\ \A i \in 1..Len(v) : v[i].k = -1 => pos(v[i].h) > 0
\* Words stay in order; only hyphens and full stops go, only signs come
KeepInv == done => LET o == Old(R) IN
    /\ \A i, j \in 1..Len(o) : i < j => o[i].k < o[j].k
    /\ \A i \in 1..Len(w) : (\E j \in 1..Len(o) : o[j].k = i) \/ (b = "pt.hyphen" /\ w[i].f = "-") \/ (b = "bg.dot" /\ w[i].f = "." /\ i = Len(w))
    /\ Len(o) < Len(R) => b = "es.excl"
\* What is wrong is gone
GoalInv == done => LET v == R IN
    CASE b = "es.tener" -> \A i \in 1..Len(v) : ~(v[i].u = "AUX" /\ v[i].l \in {"tener", "ir"})
      [] b = "ug.aux" -> \A i \in 1..Len(v) : v[i].l = "_" /\ v[i].d = "aux" => v[i].u = "VERB"
      [] b = "es.excl" -> \A i \in 1..Len(v) : Len(v[i].f) = 1
      [] b = "bg.dot" -> Len(v) < 2 \/ ~(v[Len(v)].f = "." /\ v[Len(v) - 1].f = "a.") \/ Len(w) > Len(v)
      [] OTHER -> TRUE
\* The graph follows the tree
EnhancedInv == done /\ b \in {"es.tener", "es.elque"} => LET v == R IN \A i \in 1..Len(v) : v[i].ed = <<[h |-> v[i].h, d |-> v[i].d]>>
Lists == [i \in 1..Len(w) |-> [w[i] EXCEPT !.fe = <<>>, !.mi = <<>>]]
EmitInv == (Emit /\ done) => PrintT("@@STIM " \o ToJson([b |-> b, w |-> Lists]))
=============================================================================
