------------------------------ MODULE Scenario ------------------------------
(* A command line as a scenario, its execution in rounds, the dispatch of a   *)
(* document to the methods of a block, and where writers put their output.    *)
EXTENDS Str, SequencesExt, FiniteSetsExt

(********************************** parsing **********************************)
\* A block: [n |-> name, a |-> sequence of <<key, value>>]; the last value of a key counts, digits only make a number.
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(From(s, 2)) ELSE s
Value(s) == IF IsNumber(s) THEN "int:" \o NoZeros(s) ELSE "str:" \o s
SetArg(a, k, v) == IF \E i \in 1..Len(a) : a[i][1] = k THEN [i \in 1..Len(a) |-> IF a[i][1] = k THEN <<k, v>> ELSE a[i]] ELSE Append(a, <<k, v>>)
ParseStep(s, tok) ==
    LET p == Split1(tok, "=") IN
    IF s.bad THEN s
    ELSE IF Len(p) = 1 THEN [s EXCEPT !.b = Append(@, [n |-> tok, a |-> <<>>])]
    ELSE IF s.b = <<>> THEN [s EXCEPT !.bad = TRUE]
    ELSE [s EXCEPT !.b[Len(s.b)].a = SetArg(@, p[1], Value(p[2]))]
Parse(toks) == FoldLeft(ParseStep, [bad |-> toks = <<>>, b |-> <<>>], toks)
\* Options of the command line add tokens to the end of the scenario
Expand(toks, f) ==
    toks \o (IF f.s THEN <<"write.Conllu">> ELSE <<>>)
         \o (IF f.T THEN <<"write.TextModeTrees", "color=1">> ELSE <<>>)
         \o (IF f.H THEN <<"write.TextModeTreesHtml", "color=1">> ELSE <<>>)
         \o (IF f.A THEN <<"attributes=form,lemma,upos,xpos,feats,deprel,misc">> ELSE <<>>)
         \o (IF f.C THEN <<"print_comments=1">> ELSE <<>>) \o (IF f.M THEN <<"marked_only=1">> ELSE <<>>)
         \o (IF f.N THEN <<"color=0">> ELSE <<>>) \o f.X

(********************************* execution *********************************)
\* b[i] = 0 for an ordinary block, else the number of documents the reader has.  A document is a number; readers of
\* one round add to the same document.  Every round visits every block; without a reader, one document comes from the standard input.
Rounds(b) == LET S == {b[i] : i \in 1..Len(b)} \ {0} IN IF S = {} THEN 1 ELSE Max(S)
\* trees the document of round r has when block i has been applied (a reader gives one tree per document it has)
Trees(b, i, r) == (IF \A j \in 1..Len(b) : b[j] = 0 THEN 2 ELSE 0) + Cardinality({j \in 1..i : b[j] >= r})
Exec(b) ==
    [i \in 1..Len(b) |-> <<"start", i, 0, 0>>]
    \o FlattenSeq([r \in 1..Rounds(b) |-> FlattenSeq([i \in 1..Len(b) |->
         <<<<"before", i, r, Trees(b, i - 1, r)>>, <<"doc", i, r, Trees(b, i, r)>>, <<"after", i, r, Trees(b, i, r)>>>>])])
    \o [i \in 1..Len(b) |-> <<"end", i, 0, 0>>]

(********************************** dispatch *********************************)
\* d: bundles, each a sequence of trees [z |-> zone, w |-> words, e |-> empty nodes].
\* o: [zones, ife, ov : set of overridden methods, sup : whether process_tree and process_bundle go on to the default].
ZoneOk(o, z) == o.zones = "all" \/ z \in ToSet(Split(o.zones, ","))
TreeFate(o, t) == IF t.w = 0 /\ o.ife # "process"
                  THEN (CASE o.ife \in {"skip", "skip_warn"} -> "skip" [] o.ife = "delete" -> "delete" [] OTHER -> "fail")
                  ELSE IF ZoneOk(o, t.z) THEN "visit" ELSE "skip"
Nodes(t, i, j) == [k \in 1..t.w |-> <<"node", i, j, k>>]
Empties(t, i, j) == [k \in 1..t.e |-> <<"empty", i, j, k>>]
VisitTree(o, t, i, j) ==
    IF "tree" \in o.ov THEN <<<<"tree", i, j, 0>>>> \o (IF o.sup /\ "node" \in o.ov THEN Nodes(t, i, j) ELSE <<>>)
    ELSE (IF "node" \in o.ov THEN Nodes(t, i, j) ELSE <<>>) \o (IF "empty" \in o.ov /\ "bundle" \notin o.ov THEN Empties(t, i, j) ELSE <<>>)
VisitTrees(o, b, i, s) ==
    FoldLeft(LAMBDA a, j : IF a.bad THEN a
                           ELSE CASE TreeFate(o, b[j]) = "visit" -> [a EXCEPT !.ev = @ \o VisitTree(o, b[j], i, j)]
                                  [] TreeFate(o, b[j]) = "delete" -> [a EXCEPT !.del = Append(@, <<i, j>>)]
                                  [] TreeFate(o, b[j]) = "fail" -> [a EXCEPT !.bad = TRUE]
                                  [] OTHER -> a,
             s, [j \in 1..Len(b) |-> j])
VisitBundle(o, b, i, s) ==
    IF s.bad THEN s
    ELSE IF "bundle" \in o.ov THEN LET t == [s EXCEPT !.ev = Append(@, <<"bundle", i, 0, 0>>)] IN IF o.sup THEN VisitTrees(o, b, i, t) ELSE t
    ELSE VisitTrees(o, b, i, s)
Dispatch(o, d) ==
    IF o.ov = {} THEN [bad |-> TRUE, ev |-> <<>>, del |-> <<>>]
    ELSE FoldLeft(LAMBDA s, i : VisitBundle(o, d[i], i, s), [bad |-> FALSE, ev |-> <<>>, del |-> <<>>], [i \in 1..Len(d) |-> i])

\* util.Eval: o.on: which code is given; d as above, m multiword tokens and e empty nodes in a tree
EvalTree(o, t, i, j) ==
    (IF "tree" \in o.on THEN <<<<"tree", i, j, 0>>>> ELSE <<>>)
    \* every empty node stands after the first word, or before all if there is none
    \o (IF "node" \notin o.on THEN <<>>
        ELSE IF ~o.en THEN Nodes(t, i, j)
        ELSE IF t.w = 0 THEN Empties(t, i, j)
        ELSE SubSeq(Nodes(t, i, j), 1, 1) \o Empties(t, i, j) \o SubSeq(Nodes(t, i, j), 2, t.w))
    \o (IF "mwt" \in o.on THEN [k \in 1..t.m |-> <<"mwt", i, j, k>>] ELSE <<>>)
EvalBundle(o, b, i) ==
    (IF "before_bundle" \in o.on THEN <<<<"before_bundle", i, 0, 0>>>> ELSE <<>>)
    \o (IF "bundle" \in o.on THEN <<<<"bundle", i, 0, 0>>>> ELSE <<>>)
    \o FlattenSeq([j \in 1..Len(b) |-> IF TreeFate(o, b[j]) = "visit" THEN EvalTree(o, b[j], i, j) ELSE <<>>])
    \o (IF "after_bundle" \in o.on THEN <<<<"after_bundle", i, 0, 0>>>> ELSE <<>>)
EvalDoc(o, d) ==
    LET one(x) == IF x \in o.on THEN <<<<x, 0, 0, 0>>>> ELSE <<>> IN
    one("start") \o one("before_doc") \o one("doc") \o FlattenSeq([i \in 1..Len(d) |-> EvalBundle(o, d[i], i)])
    \o one("after_doc") \o one("end")

(*********************************** output **********************************)
\* Directory, name and extension of a path
DirOf(p) == LET K == {k \in 1..Len(p) : Ch(p, k) = "/"} IN IF K = {} THEN "" ELSE Upto(p, Max(K) - 1)
FileOf(p) == LET K == {k \in 1..Len(p) : Ch(p, k) = "/"} IN IF K = {} THEN p ELSE From(p, Max(K) + 1)
Stem(f) == LET K == {k \in 2..Len(f) : Ch(f, k) = "."} IN IF K = {} THEN f ELSE Upto(f, Max(K) - 1)
Ext(f) == LET K == {k \in 2..Len(f) : Ch(f, k) = "."} IN IF K = {} THEN "" ELSE From(f, Max(K))
Pick(new, old) == IF new \in {"", "*"} THEN old ELSE new
PathJoin(d, f) == IF d = "" THEN f ELSE d \o "/" \o f
Redirect(path, from) ==
    LET p == IF EndsWith(path, "/") \/ ContainsStr(path, "*") THEN path ELSE path \o "/"
    IN PathJoin(Pick(DirOf(p), DirOf(from)), Pick(Stem(FileOf(p)), Stem(FileOf(from))) \o Pick(Ext(FileOf(p)), Ext(FileOf(from))))
\* o: [files: "-", "handle" or names, docname, overwrite : BOOLEAN, path]; document k: [name, from] ("" if unknown)
Conflict(o) == (o.docname /\ o.files # <<"-">>) \/ (o.overwrite /\ o.files # <<"-">>) \/ (o.overwrite /\ o.docname)
Target(o, docs, k) ==
    IF o.files = <<"handle">> THEN "handle"
    ELSE IF o.files # <<"-">> THEN (IF k > Len(o.files) THEN "none" ELSE IF o.files[k] = "-" THEN "stdout" ELSE "=" \o o.files[k])
    ELSE IF o.docname THEN (IF docs[k].name = "" THEN "stdout" ELSE "=" \o docs[k].name)
    ELSE IF o.overwrite \/ o.path # "" THEN
        (IF docs[k].from = "" THEN "stdout" ELSE IF o.path = "" THEN "=" \o docs[k].from ELSE "=" \o Redirect(o.path, docs[k].from))
    ELSE "stdout"
\* Writing stops when there are more documents than files.  stdout also gets what the next block prints ("!") after each document.
Written(o, docs) == LET K == {k \in 1..Len(docs) : Target(o, docs, k) = "none"} IN IF K = {} THEN Len(docs) ELSE Min(K) - 1
Stdout(o, docs) == FlattenSeq([k \in 1..Written(o, docs) |-> IF Target(o, docs, k) = "stdout" THEN <<k, 0>> ELSE <<0>>])
Targets(o, docs) == {Target(o, docs, k) : k \in 1..Written(o, docs)} \ {"stdout"}
\* A file written again holds the last document only; a file handle all of them
Holds(o, docs, f) == IF f = "handle" THEN [k \in 1..Written(o, docs) |-> k]
                     ELSE <<Max({k \in 1..Written(o, docs) : Target(o, docs, k) = f})>>
=============================================================================
