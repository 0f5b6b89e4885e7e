------------------------------ MODULE MC_Doc ------------------------------
(* Exhaustive: all sequences of N edits of a small document.                  *)
EXTENDS Doc, Json
CONSTANTS N, Emit
VARIABLES s, h

Zs == {"", "a", "a_B", "all", "B"}
Bs == 1..Len(s.b)
Ops == {[o |-> "create_bundle"]}
       \cup {[o |-> o, b |-> b] : o \in {"remove_bundle"}, b \in Bs}
       \cup {[o |-> "bundle_id", b |-> b, v |-> v] : b \in Bs, v \in {"x", "y"}}
       \cup {[o |-> "create_tree", b |-> b, v |-> v, n |-> "t" \o ToString(Len(h) + 1)] : b \in Bs, v \in Zs}
       \cup UNION {UNION {{[o |-> "zone", b |-> b, t |-> t, v |-> v] : v \in Zs \ {s.b[b].trees[t].zone}} : t \in 1..Len(s.b[b].trees)} : b \in Bs}
       \cup UNION {{[o |-> "sent_id", b |-> b, t |-> t, v |-> v] : t \in 1..Len(s.b[b].trees), v \in {"x/a", "z/a_B", "z/B"}} : b \in Bs}
       \cup UNION {{[o |-> "remove_tree", b |-> b, t |-> t] : t \in 1..Len(s.b[b].trees)} : b \in Bs}
Init == s = Empty /\ h = <<>>
Next == Len(h) < N /\ \E op \in Ops : s' = Apply(s, op) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_<<s, h>>
\* Zones in a bundle differ, so sentence IDs of one bundle are unique; numbers are positions.
Unique == \A i \in Bs : Cardinality(Zones(s.b[i])) = Len(s.b[i].trees) /\ \A z \in Zones(s.b[i]) : ValidZone(z)
Ids == LET v == View(s) IN \A i \in Bs : \A j \in 1..Len(v[i].trees) :
         SidId(v[i].trees[j].sid) = v[i].id /\ SidZone(v[i].trees[j].sid) = v[i].trees[j].zone
EmitInv == (Emit /\ Len(h) = N) => PrintT("@@STIM " \o ToJson([h |-> h]))
=============================================================================
