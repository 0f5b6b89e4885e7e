----------------------------- MODULE MC_Conllu -----------------------------
(* Exhaustive: small CoNLL-U files.  Kind "head": every sequence of up to N   *)
(* comment lines over a fixed body; kind "body": small sets of rows.          *)
EXTENDS Conllu, Json
CONSTANTS N, M, Emit
VARIABLE f

Comments == {"# sent_id = s1/en", "# text = A b", "# newdoc", "# newdoc id = d 1", "# newpar id = p1", "# global.Entity = eid-etype",
             "# json_x = {\"a\": 1}", "# doc_json_y = [1]", "# other = 1", "#nospace", "# global.columns = ID FORM"}
Heads == UNION {[1..n -> Comments] : n \in 0..N}
Word(k, h, misc) == <<ToString(k), "w" \o ToString(k), "l", "NOUN", "_", "A=1", ToString(h), "dep", "_", misc>>
Second == <<<<"# sent_id = s1/cs">>, Word(1, 0, "_"), <<>>>>
HeadFile(h) == [i \in 1..Len(h) |-> <<h[i]>>] \o <<Word(1, 0, "_"), <<>>>> \o Second

Miscs == {"_", "SpaceAfter=No", "SpaceAfter=No|b=1|A"}
Ranges(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
Tok(p, misc) == <<ToString(p[1]) \o "-" \o ToString(p[2]), "tok", "_", "_", "_", "_", "_", "_", "_", misc>>
Emp(k, j) == <<ToString(k) \o "." \o ToString(j), "e", "_", "_", "_", "_", "_", "_", "0:root|1:x", "_">>
\* the rows of n words, with a token (or none) and empty nodes after the words in es
BodyFile(n, ms, p, pm, es) ==
    LET emp(k) == FoldLeft(LAMBDA acc, j : Append(acc, Emp(k, j)), <<>>, [j \in 1..es[k] |-> j]) IN
    FoldLeft(LAMBDA acc, k : acc \o (IF p # <<>> /\ p[1] = k THEN <<Tok(p, pm)>> ELSE <<>>) \o <<Word(k, k - 1, ms[k])>> \o emp(k),
             emp(0), [k \in 1..n |-> k]) \o <<<<>>>>
Bodies == UNION {{BodyFile(n, ms, p, pm, es) : ms \in [1..n -> Miscs], p \in Ranges(n) \cup {<<>>}, pm \in {"_", "SpaceAfter=No", "x"}, es \in [0..n -> 0..1]} : n \in 1..M}
          \cup {<<Word(1, 0, "Empty=Yes"), <<>>>>, <<<<"# text = q">>, Word(1, 0, "Empty=Yes"), <<>>>> \o Second}
Init == f \in {HeadFile(h) : h \in Heads} \cup Bodies
Next == FALSE /\ UNCHANGED f
Spec == Init /\ [][Next]_f

Opts == [sid : BOOLEAN, text : BOOLEAN, empty : BOOLEAN]
D == ReadDoc(f)
\* Writing a document adds a text to the trees without one, otherwise reading it back gives the same document.
Filled(d) == [i \in 1..Len(d.bundles) |-> [id |-> d.bundles[i].id, trees |->
    [j \in 1..Len(d.bundles[i].trees) |-> [Shown(d.bundles[i].trees[j], d.bundles[i].id) EXCEPT !.text = "=" \o TextOf(d.bundles[i].trees[j])]]]]
ReadBack == LET d == ReadDoc(WriteDoc(D, Default)) IN ShownDoc(d) = Filled(D) /\ d.dj = D.dj /\ (d.ge = D.ge)
\* What was written once is written the same again.
Stable == LET out == WriteDoc(D, Default) IN WriteDoc(ReadDoc(out), Default) = out
\* No comment is lost or invented, whatever its place.
Kept == LET out == WriteDoc(D, Default)
            plain(q) == [c \in Comments |-> Cardinality({i \in 1..Len(q) : q[i] = <<c>>})]
        IN \A c \in {"# other = 1", "#nospace", "# global.columns = ID FORM"} : plain(f)[c] = plain(out)[c]
Order == \A o \in Opts : LET out == WriteDoc(D, o) IN \A i \in 1..Len(out) - 1 : Len(out[i]) = 10 => Len(out[i+1]) # 1
EmitInv == Emit => PrintT("@@STIM " \o ToJson([f |-> f]))
=============================================================================
