------------------------------ MODULE MC_Load ------------------------------
(* Exhaustive: all small streams of trees in one or two files under all       *)
(* reader options.  kind: "new" ID, "none", "zone" (another tree of the same  *)
(* bundle).                                                                   *)
EXTENDS Load, Json
CONSTANTS N, Emit
VARIABLES q, b

Kinds == {<<"new", "">>, <<"new", "!">>, <<"new", "=d">>, <<"none", "">>, <<"none", "!">>, <<"zone", "">>}
\* a stream from kinds and the position of the file boundary
s == [i \in 1..Len(q) |->
    LET start == Max({j \in 1..i : j = 1 \/ q[j][1] # "zone" \/ q[j - 1][1] = "none" \/ j = b + 1})
    IN [id |-> IF q[i][1] = "none" THEN "" ELSE "s" \o ToString(start),
        zone |-> IF start = i THEN "" ELSE "z" \o (<<"a", "b", "c", "d">>)[i - start], nd |-> q[i][2], f |-> IF i <= b THEN 1 ELSE 2]]
Init == \E k \in Kinds : q = <<k>> /\ b \in 1..N
Next == Len(q) < N /\ \E k \in Kinds : q' = Append(q, k) /\ b' = b
Spec == Init /\ [][Next]_<<q, b>>

Opts == [merge : BOOLEAN, split : BOOLEAN, ignore : BOOLEAN, per : 0..2, max : 0..2, zone : {"keep"}]
All == 1..Len(s)
Flat(ds) == FlattenSeq([i \in 1..Len(ds) |-> FlattenSeq(ds[i])])
D(o) == Docs(Prepared(Kept(s, All), o), o)
Partition == \A o \in Opts : o.max = 0 => Flat(D(o)) = [i \in 1..Len(s) |-> i]
Prefix == \A o \in Opts : IsPrefix(Flat(D(o)), [i \in 1..Len(s) |-> i])
              /\ (o.max > 0 => Len(D(o)) <= o.max)
              /\ (o.max > 1 => IsPrefix(Flat(D([o EXCEPT !.max = @ - 1])), Flat(D(o))))
Sizes == \A o \in Opts : LET ds == D(o) IN \A i \in 1..Len(ds) : ds[i] # <<>> /\ (o.per > 0 => Len(ds[i]) <= o.per)
\* Trees with one ID in one file are in one bundle unless a document starts in between.
Whole == \A o \in Opts : ~o.ignore =>
           LET ds == D(o) IN \A i \in 1..Len(ds) : \A k \in 1..Len(ds[i]) : \A j \in 1..Len(ds[i][k]) :
             j > 1 => s[ds[i][k][j]].id = s[ds[i][k][1]].id /\ s[ds[i][k][j]].f = s[ds[i][k][1]].f
Torn == \A o \in Opts : ~o.ignore /\ o.max = 0 => LET ds == D(o) IN
           \A i \in 1..Len(s) - 1 : (s[i].id = s[i+1].id /\ s[i].id # "" /\ s[i].f = s[i+1].f) =>
              \E x \in 1..Len(ds) : \E y \in 1..Len(ds[x]) : {i, i + 1} \subseteq {ds[x][y][z] : z \in 1..Len(ds[x][y])}
Splits == \A o \in Opts : o.split => LET ds == D(o) IN \A i \in 1..Len(ds) : \A t \in Flat(<<ds[i]>>)[1] + 1 .. Last(Flat(<<ds[i]>>)) : s[t].nd = ""
EmitInv == (Emit /\ (b <= Len(q) \/ b = N)) => PrintT("@@STIM " \o ToJson([s |-> s]))
=============================================================================
