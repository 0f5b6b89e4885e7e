----------------------------- MODULE CorefRelease -----------------------------
(* Preparing data of CorefUD for a release.                                     *)
(* corefud.FixToValidate: a sentence is [w: words, tk: tokens, nd, np: does it  *)
(* begin a document, a paragraph].  A word is [h: number of the head or 0, d, u: *)
(* deprel, upos, sp: SpaceAfter, t: number of its multiword token or 0], a token *)
(* is [sp: SpaceAfter].                                                          *)
(* corefud.FixCorefUD02: entities are as in Coref.                               *)
EXTENDS Coref

(******************************* FixToValidate *******************************)
\* The relation of a word which claimed to be a root but is not one; u, p: tags of the word and of its head
NotRoot(u, p) == IF u = "CCONJ" THEN "cc" ELSE IF u = "ADJ" /\ p = "PROPN" THEN "amod" ELSE IF u = "NOUN" /\ p = "VERB" THEN "obl" ELSE "parataxis"
Tops(w) == [i \in 1..Len(w) |-> IF w[i].h = 0 THEN [w[i] EXCEPT !.d = "root"] ELSE w[i]]
\* One such word: it leaves a punctuation mark, unless the mark is at the top
Demoted(w, i) ==
    LET p == w[i].h IN
    IF p = 0 \/ w[i].d # "root" THEN w
    ELSE [w EXCEPT ![i].h = IF w[p].u = "PUNCT" /\ w[p].h # 0 THEN w[p].h ELSE @, ![i].d = NotRoot(w[i].u, w[p].u)]
Rooted(w) == FoldLeft(LAMBDA z, i : Demoted(z, i), Tops(w), [i \in 1..Len(w) |-> i])
\* There are words, and a document or a paragraph begins after the last of them
Ends(S, s) == S[s].w # <<>> /\ \E n \in (s + 1)..Len(S) : (S[n].nd # "" \/ S[n].np # "") /\ \A k \in (s + 1)..(n - 1) : S[k].w = <<>>
Spaced(x) == IF x.sp = "No" THEN [x EXCEPT !.sp = ""] ELSE x
Separated(S, s) == LET x == S[s] IN
    IF ~Ends(S, s) THEN x
    ELSE LET n == Len(x.w) t == x.w[n].t w == [x.w EXCEPT ![n] = Spaced(@)] IN
         [x EXCEPT !.w = w, !.tk = IF t = 0 THEN @ ELSE [@ EXCEPT ![t] = Spaced(@)]]
Valid(S) == [s \in 1..Len(S) |-> LET x == Separated(S, s) IN [x EXCEPT !.w = Rooted(@)]]

(******************************* FixCorefUD02 ********************************)
Low(t) == FoldLeft(LAMBDA a, i : a \o (LET k == LowerCode(Ch(t, i)) IN IF k = 1000 THEN Ch(t, i) ELSE Ch(Ascii, k - 31)), "", [i \in 1..Len(t) |-> i])
Drop(t, x) == ReplaceStr(t, x, "")
NewType == << <<"misc", "other">>, <<"date", "time">>, <<"loc", "place">>, <<"location", "place">>, <<"per", "person">>, <<"org", "organization">>, <<"_", "">> >>
Renamed(t) == LET I == {i \in 1..Len(NewType) : NewType[i][1] = t} IN IF I = {} THEN t ELSE LET i == CHOOSE i \in I : TRUE IN NewType[i][2]
\* Generic or specific; it moves to mentions
Kind(t) == IF StartsWith(Low(t), "gen") THEN "gen" ELSE IF StartsWith(Low(t), "spec") THEN "spec" ELSE ""
Type(t) ==
    LET x == Low(t) y == IF Kind(t) = "" THEN x ELSE IF x = "spec" THEN "other" ELSE Drop(Drop(Drop(x, "gen"), "spec"), ".") z == Renamed(y)
    IN IF z = "appos" THEN "" ELSE z
Appos(t) == (IF Kind(t) = "" THEN Low(t) ELSE Drop(Drop(Drop(Low(t), "gen"), "spec"), ".")) = "appos"
Relation(t) == LET x == Low(t) y == IF EndsWith(x, "-inv") THEN "i" \o Drop(x, "-inv") ELSE x IN Drop(Drop(y, "-"), "indirect_")
SetOther(o, k, v) == LET i == {i \in 1..Len(o) : o[i].k = k} IN IF i = {} THEN Append(o, [k |-> k, v |-> v]) ELSE [o EXCEPT ![CHOOSE j \in i : TRUE].v = v]
Harmonized(e) ==
    [e EXCEPT !.ty = Type(@), !.ms = [j \in 1..Len(e.ms) |->
        LET m == e.ms[j]
            o1 == IF Kind(e.ty) = "" THEN m.o ELSE SetOther(m.o, "gstype", Kind(e.ty))
            o2 == IF Appos(e.ty) /\ j > 1 THEN SetOther(o1, "appos", "1") ELSE o1
        IN [m EXCEPT !.o = o2, !.b = [k \in 1..Len(m.b) |-> [m.b[k] EXCEPT !.r = Relation(@)]]]]]
Header(t) == IF t = "entity-GRP-infstat-MIN-coref_type-identity" THEN "eid-etype-head-other-infstat-minspan-identity" ELSE t
=============================================================================
