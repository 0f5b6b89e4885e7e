---------------------------- MODULE MC_Resegment ----------------------------
(* Exhaustive: all documents of N words with all trees whose words follow     *)
(* their heads, all marks, all divisions into sentences.                      *)
EXTENDS Resegment, Json
CONSTANTS N, Emit
VARIABLES d, c      \* c: characters of segmented text

Word(k, h, m, f) == [k |-> k, h |-> h, d |-> IF h = 0 THEN "root" ELSE "dep", f |-> f, sp |-> TRUE, t |-> 0, m |-> m]
Total == FoldLeft(LAMBDA a, s : a + Len(s.w), 0, d.s)
Init == d = [s |-> <<>>, tk |-> <<>>] /\ c = <<>>
AddWord == /\ Total < N /\ c = <<>>
           /\ \E m \in {"", "x"}, f \in {"a", "b;"}, new \in BOOLEAN :
                IF new \/ d.s = <<>>
                THEN d' = [d EXCEPT !.s = Append(@, [id |-> "s" \o ToString(Len(@) + 1), tx |-> "", w |-> <<Word(Total + 1, 0, m, f)>>])]
                ELSE \E h \in Keys(Last(d.s).w) \cup {0} : d' = [d EXCEPT !.s[Len(d.s)].w = Append(@, Word(Total + 1, h, m, f))]
           /\ UNCHANGED c
AddToken == /\ d.s = <<>> /\ Len(c) < 3 /\ UNCHANGED d
            /\ \E t \in {"A", "a.", "B.", "e.g.", "\"C", "x!\"", "7", "(D.", ".", ""} : c' = Append(c, t)
Next == AddWord \/ AddToken
Spec == Init /\ [][Next]_<<d, c>>

Order(x) == [i \in 1..Len(AllWords(x.s)) |-> AllWords(x.s)[i].k]
Results == {SplitMarked(d, ""), SplitMarked(d, "x"), SplitMarked(d, "y"), JoinMarked(d, ""), Merge(d)}
           \cup {JoinId(d, d.s[i].id) : i \in 1..Len(d.s)} \cup UNION {{SplitId(d, d.s[i].id, p) : p \in 2..Len(d.s[i].w)} : i \in 1..Len(d.s)}
\* Words stay in order, heads stay inside sentences and sentences are not empty.
Conserve == \A x \in Results :
    /\ Order(x) = Order(d)
    /\ (\A i \in 1..Len(x.s) : x.s[i].w # <<>> /\ \A j \in 1..Len(x.s[i].w) : x.s[i].w[j].h \in Keys(x.s[i].w) \cup {0})
    /\ Cardinality({x.s[k].id : k \in 1..Len(x.s)}) = Len(x.s)
\* Joining undoes splitting as far as words and divisions go.
Undo == \A i \in 1..Len(d.s) : \A p \in 2..Len(d.s[i].w) :
    LET x == SplitId(d, d.s[i].id, p) y == JoinId(x, d.s[i].id \o "B") IN Len(x.s) = Len(d.s) + 1 /\ Len(y.s) = Len(d.s) /\ Order(y) = Order(d)
ChunksInv == \A n \in 1..3 : FlattenSeq(Chunks(d.s, n)) = d.s /\ \A i \in 1..(Len(Chunks(d.s, n)) - 1) : Len(Chunks(d.s, n)[i]) = n
Line == Join(c, " ")
SegInv == c # <<>> => /\ Join(Segments(Line, FALSE), " ") = Line
                      /\ FoldLeft(LAMBDA a, x : a \o x, "", Segments(Line, TRUE)) = Line
EmitInv == Emit => (IF c # <<>> THEN PrintT("@@STIM " \o ToJson([text |-> Line])) ELSE d.s # <<>> => PrintT("@@STIM " \o ToJson([d |-> d])))
=============================================================================
