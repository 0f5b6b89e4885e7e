-------------------------------- MODULE Load --------------------------------
(* How a stream of trees read from files is divided into bundles and           *)
(* documents.  A tree: [id, zone, nd, f]: sentence ID without the zone ("" if  *)
(* none), zone, start of a document ("" no, "!" yes, "=name"), number of its   *)
(* file.  Options o: [merge, split, ignore : BOOLEAN, per, max : 0.., zone].   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Str

\* Trees that pass the filter (keep: set of positions); a document start among the skipped ones moves to the next tree of the file.
Kept(ts, keep) ==
    LET carry(i) == LET S == {j \in 1..i : ts[j].f = ts[i].f /\ ts[j].nd # "" /\ \A k \in j..i - 1 : k \notin keep}
                    IN IF S = {} THEN "" ELSE ts[Max(S)].nd
        idx == SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i : i \in keep)
    IN [j \in 1..Len(idx) |-> [t |-> idx[j], id |-> ts[idx[j]].id, zone |-> ts[idx[j]].zone, f |-> ts[idx[j]].f,
                               nd |-> IF ts[idx[j]].nd # "" THEN ts[idx[j]].nd ELSE carry(idx[j])]]
\* The trees as the document will show them
Prepared(ts, o) == [i \in 1..Len(ts) |-> [ts[i] EXCEPT !.id = IF o.ignore THEN "" ELSE @,
                                                      !.zone = IF o.zone # "keep" THEN o.zone ELSE IF o.ignore THEN "" ELSE @]]
NewBundle(ts, i) == i = 1 \/ ts[i].id = "" \/ ts[i].id # ts[i-1].id \/ ts[i].f # ts[i-1].f
\* State of the division: finished documents (sequences of bundles, a bundle is a sequence of positions), documents counted
NewDoc(ts, o, s, i) == s.docs = <<>> \/ (ts[i].f # ts[i-1].f /\ ~o.merge) \/ (o.split /\ ts[i].nd # "")
                       \/ (o.per > 0 /\ Len(Last(s.docs)) = o.per /\ NewBundle(ts, i))
Put2(docs, b) == [docs EXCEPT ![Len(docs)] = Append(@, b)]
Extend(docs, i) == [docs EXCEPT ![Len(docs)] = [@ EXCEPT ![Len(@)] = Append(@, i)]]
Step(ts, o, s, i) ==
    IF s.stop THEN s
    ELSE LET nd == NewDoc(ts, o, s, i)
             c == IF nd \/ ts[i].nd # "" THEN s.count + 1 ELSE s.count
         IN IF o.max > 0 /\ c > o.max THEN [s EXCEPT !.stop = TRUE]
            ELSE [s EXCEPT !.count = c, !.docs = IF nd THEN Append(@, <<<<i>>>>)
                                                 ELSE IF NewBundle(ts, i) THEN Put2(@, <<i>>) ELSE Extend(@, i)]
Docs(ts, o) == FoldLeft(LAMBDA s, i : Step(ts, o, s, i), [docs |-> <<>>, count |-> 0, stop |-> FALSE], [i \in 1..Len(ts) |-> i]).docs
\* What is seen of one document: [docname, file, bundles: <<[id, trees: <<[t, zone, sid, nd]>>]>>]
FullSid(id, zone) == IF zone = "" THEN id ELSE id \o "/" \o zone
DocView(ts, d) ==
    LET first == ts[d[1][1]] IN
    [name |-> IF StartsWith(first.nd, "=") THEN From(first.nd, 2) ELSE "", file |-> first.f,
     b |-> [k \in 1..Len(d) |->
              LET id == IF ts[d[k][1]].id = "" THEN ToString(k) ELSE ts[d[k][1]].id
              IN [id |-> id, n |-> k, trees |-> [j \in 1..Len(d[k]) |->
                   [t |-> ts[d[k][j]].t, zone |-> ts[d[k][j]].zone, sid |-> FullSid(id, ts[d[k][j]].zone), nd |-> ts[d[k][j]].nd]]]]]
View(ts, keep, o) == LET k == Prepared(Kept(ts, keep), o)
                         ds == Docs(k, o)
                     IN [i \in 1..Len(ds) |-> DocView(k, ds[i])]
=============================================================================
