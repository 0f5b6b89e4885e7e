------------------------------- MODULE MC_Draw -------------------------------
(* Exhaustive: all trees of up to N words with or without an empty node drawn  *)
(* in all orders in which nodes can be taken.  The finished drawing can be read   *)
(* back, so the order (which decides about crossings) is free.                     *)
EXTENDS Draw, Json, TLC
CONSTANTS N, E, Indent, Emit
VARIABLES I, o, R, todo
vars == <<I, o, R, todo>>
Root == [h |-> 0, e |-> FALSE, lab |-> ""]
W(h) == [h |-> h, e |-> FALSE, lab |-> " a"]
Empty == [h |-> 0, e |-> TRUE, lab |-> " e"]
Opts == [classic : BOOLEAN, align : BOOLEAN, hints : BOOLEAN, indent : Indent]
Init == I = <<Root>> /\ o \in {p \in Opts : p.classic => ~p.align} /\ R = <<>> /\ todo = {}
Tree == /\ \A i \in 2..Len(I) : I[i].h <= Len(I) /\ (~I[i].e => I[i].h # 0 /\ (I[i].h = 1 \/ ~I[I[i].h].e))
        /\ \A i \in 2..Len(I) : I[i].e \/ FoldLeft(LAMBDA a, z : IF a <= 1 THEN a ELSE I[a].h, i, [z \in 1..Len(I) |-> z]) = 1
Grow == /\ R = <<>> /\ Len(I) <= N /\ UNCHANGED <<o, R, todo>>
        /\ \/ \E h \in (1..(N + 1)) \ {Len(I) + 1} : I' = Append(I, W(h))
           \/ Cardinality({i \in 1..Len(I) : I[i].e}) < E /\ I' = Append(I, Empty)
Start == R = <<>> /\ Tree /\ R' = [i \in 1..Len(I) |-> ""] /\ todo' = {1} /\ UNCHANGED <<I, o>>
Draw(x) == /\ R' = LET r == Step(R, I, x, o) IN IF todo = {x} /\ \A k \in KidsOf(I, x) : KidsOf(I, k) = {} THEN Labelled(r, I, o) ELSE r
           /\ todo' = (todo \ {x}) \cup {k \in KidsOf(I, x) : KidsOf(I, k) # {}} /\ UNCHANGED <<I, o>>
Next == Grow \/ Start \/ \E x \in todo : Draw(x)
Spec == Init /\ [][Next]_vars
Done == R # <<>> /\ todo = {}
ReadInv == Done => Sound(R, I) /\ Heads(R, I) /\ Hints(R, I, o.hints) /\ Indents(R, I, o.indent)
\* Branches of nodes which are still to be drawn are open at the right end
OpenInv == R # <<>> => \A x \in todo \ {1} : Last0(R[x]) \in BranchG \cup {"-", "+"}
EmitInv == (Emit /\ R = <<>> /\ Tree /\ ~o.classic /\ ~o.align /\ o.hints) => PrintT("@@STIM " \o ToJson([I |-> Tail(I)]))
=============================================================================
