-------------------------------- MODULE Doc --------------------------------
(* A document: bundles with IDs and numbers, trees with zones, and the        *)
(* identifiers derived from them.  State: [b: sequence of bundles             *)
(* [id, trees: sequence of [t: name, zone]], made: bundles created so far].   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Str

Lower == {Ch("abcdefghijklmnopqrstuvwxyz-", i) : i \in 1..27}
Alnum == {Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-", i) : i \in 1..63}
AllIn(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S
ValidZone(z) == z # "all" /\ LET k == Find(z, "_") IN
    IF k = 0 THEN AllIn(z, Lower) ELSE AllIn(Upto(z, k - 1), Lower) /\ Len(z) > k /\ AllIn(From(z, k + 1), Alnum)
Zones(b) == {b.trees[i].zone : i \in 1..Len(b.trees)}
FreeZone(b, z) == ValidZone(z) /\ z \notin Zones(b)
Sid(b, t) == IF t.zone = "" THEN b.id ELSE b.id \o "/" \o t.zone

(* Edits: Ok says whether the call is accepted (otherwise it raises and changes nothing). *)
SidZone(v) == LET p == Split1(v, "/") IN IF Len(p) = 2 THEN p[2] ELSE ""
SidId(v) == Split1(v, "/")[1]
Ok(s, op) ==
    CASE op.o \in {"create_tree", "add_tree"} -> FreeZone(s.b[op.b], op.v)
      [] op.o = "zone" -> FreeZone(s.b[op.b], op.v)
      [] op.o = "sent_id" -> \/ SidZone(op.v) = s.b[op.b].trees[op.t].zone
                             \/ FreeZone(s.b[op.b], SidZone(op.v))
      [] OTHER -> TRUE
Apply(s, op) ==
    IF ~Ok(s, op) THEN s
    ELSE CASE op.o = "create_bundle" -> [b |-> Append(s.b, [id |-> ToString(s.made + 1), trees |-> <<>>]), made |-> s.made + 1]
           [] op.o = "remove_bundle" -> [s EXCEPT !.b = RemoveAt(@, op.b)]
           [] op.o = "bundle_id" -> [s EXCEPT !.b[op.b].id = op.v]
           [] op.o \in {"create_tree", "add_tree"} -> [s EXCEPT !.b[op.b].trees = Append(@, [t |-> op.n, zone |-> op.v])]
           [] op.o = "zone" -> [s EXCEPT !.b[op.b].trees[op.t].zone = op.v]
           [] op.o = "sent_id" -> [s EXCEPT !.b[op.b].id = SidId(op.v), !.b[op.b].trees[op.t].zone = SidZone(op.v)]
           [] op.o = "remove_tree" -> [s EXCEPT !.b[op.b].trees = RemoveAt(@, op.t)]
           [] OTHER -> s

(* What is seen: every tree has two words and an empty node 1.1, and a token over both words *)
TreeView(b, t) == [t |-> t.t, zone |-> t.zone, sid |-> Sid(b, t),
                   ad |-> <<Sid(b, t), Sid(b, t) \o "#1", Sid(b, t) \o "#1.1", Sid(b, t) \o "#2", Sid(b, t) \o "#1-2">>]
View(s) == [i \in 1..Len(s.b) |-> [id |-> s.b[i].id, n |-> i,
                                  trees |-> [j \in 1..Len(s.b[i].trees) |-> TreeView(s.b[i], s.b[i].trees[j])]]]
AllTrees(s) == FlattenSeq([i \in 1..Len(s.b) |-> [j \in 1..Len(s.b[i].trees) |-> s.b[i].trees[j].t]])
\* The tree with a zone: its name, or "" if there is none
Lookup(b, z) == LET S == SelectSeq(b.trees, LAMBDA t : t.zone = z) IN IF S = <<>> THEN "" ELSE S[1].t
\* Does word k1 of tree t1 in bundle b1 precede word k2 of tree t2 in b2?  "error" across zones.
Precedes(s, op) == IF op.b = op.b2 /\ op.t = op.t2 THEN IF op.k < op.k2 THEN "yes" ELSE "no"
                   ELSE IF s.b[op.b].trees[op.t].zone # s.b[op.b2].trees[op.t2].zone THEN "error"
                   ELSE IF op.b < op.b2 THEN "yes" ELSE "no"
Empty == [b |-> <<>>, made |-> 0]
=============================================================================
