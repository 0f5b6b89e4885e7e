----------------------------- MODULE MC_UdTree -----------------------------
(* Exhaustive exploration of UdTree within small bounds.  States are kept in  *)
(* canonical form: the words are renamed 1..n in their order after every      *)
(* step, empty nodes 101.., so that a state is a shape.         *)
(* Every reachable state is printed with all operations that apply to it;     *)
(* the harness builds the state in the real code and applies each of them.    *)
EXTENDS UdTree, TLC, Json

CONSTANTS MaxW,   \* words
          MaxE,   \* empty nodes
          MaxM,   \* multi-word tokens
          MaxD,   \* enhanced dependencies beyond the one every empty node is created with
          Emit    \* print the stimuli?

VARIABLE t

Canon(s) ==
    LET n == Len(s.w)
        wid(x) == IF x = 0 THEN 0
                  ELSE IF \E k \in 1..n : s.w[k] = x THEN Pos(s, x)
                  ELSE 100 + (CHOOSE k \in 1..Len(s.e) : s.e[k].i = x)
        old(k) == IF k <= n THEN s.w[k] ELSE s.e[k - 100].i
        ids == (1..n) \cup {100 + k : k \in 1..Len(s.e)}
    IN [w |-> [k \in 1..n |-> k],
        p |-> [k \in 1..n |-> wid(s.p[s.w[k]])],
        e |-> [k \in 1..Len(s.e) |-> [i |-> 100 + k, a |-> s.e[k].a, b |-> s.e[k].b]],
        m |-> {[x EXCEPT !.ws = {wid(y) : y \in @}] : x \in s.m},
        s |-> {wid(x) : x \in s.s},
        d |-> [x \in ids |-> [k \in 1..Len(s.d[old(x)]) |-> [h |-> wid(s.d[old(x)][k].h), r |-> s.d[old(x)][k].r]]]]

W == Words(t)
NDeps(s) == FoldSet(LAMBDA x, acc : acc + Len(s.d[x]), 0, AllNodes(s))
Torn(s) == \E m \in s.m : ~Contiguous(s, m.ws)

Init == t = [w |-> <<>>, p |-> <<>>, e |-> <<>>, m |-> {}, s |-> {}, d |-> <<>>]

Create == Len(t.w) < MaxW /\ \E q \in W \cup {0} : t' = Canon(CreateChild(t, q, 1000))
Reattach == \E n \in W, q \in W \cup {0} : ~ParentRefused(t, n, q) /\ t' = Canon(SetParent(t, n, q))
DoShift == \E n \in W, ref \in W \cup {0}, kind \in {"an", "bn", "as", "bs"}, alone \in BOOLEAN :
              /\ ~ShiftRefused(t, n, kind, ref, alone, FALSE)
              /\ ~Torn(Shift(t, n, kind, ref, alone))
              /\ t' = Canon(Shift(t, n, kind, ref, alone))
DoRemove == \E n \in W, mode \in {"all", "rehang"} : t' = Canon(RemoveWord(t, n, mode))
MakeEmpty == Len(t.e) < MaxE /\ \E n \in W, after \in BOOLEAN : t' = Canon(CreateEmpty(t, n, after, "dep", 1000))
DropEmpty == \E x \in Empties(t) : t' = Canon(RemoveEmpty(t, x))
MakeMwt == Cardinality(t.m) < MaxM /\ \E j, k \in 1..Len(t.w) : j < k /\ t' = Canon(CreateMwt(t, j..k, "M"))
DropMwtA == \E m \in t.m : t' = Canon(RemoveMwt(t, Min(m.ws)))
NoSpace == MaxM > 0 /\ \E x \in W : t' = [t EXCEPT !.s = (@ \cup {x}) \ (@ \cap {x})]
AddDep == /\ NDeps(t) < MaxE + MaxD
          /\ \E x \in AllNodes(t), h \in AllNodes(t) \cup {0} :
                h # x /\ Len(t.d[x]) < 2 /\ t' = [t EXCEPT !.d[x] = Append(@, [h |-> h, r |-> "dep"])]
Next == Create \/ Reattach \/ DoShift \/ DoRemove \/ MakeEmpty \/ DropEmpty \/ MakeMwt \/ DropMwtA \/ NoSpace
        \/ (MaxD > 0 /\ AddDep)

Spec == Init /\ [][Next]_t

(******************************* invariants ********************************)
Inv == TreeOK(t)
\* The moved block is where it was asked to be and nothing else changed its relative order.
ShiftInv == \A n \in W, ref \in W \cup {0}, kind \in {"an", "bn", "as", "bs"}, alone \in BOOLEAN :
    ~ShiftRefused(t, n, kind, ref, alone, FALSE) =>
       LET s == Shift(t, n, kind, ref, alone)
           M == Moved(t, n, alone)
           before(u, x, y) == Pos(u, x) < Pos(u, y)
           anchor == IF kind \in {"an", "bn"} THEN {ref} \ M ELSE (({ref} \cup Desc(t, ref)) \ M) \cap W
       IN /\ Range(s.w) = W /\ TreeOK(s)
          /\ \A x, y \in W : ((x \in M) <=> (y \in M)) => (before(t, x, y) <=> before(s, x, y))
          /\ \A x \in M, y \in anchor : IF kind \in {"an", "as"} THEN before(s, y, x) ELSE before(s, x, y)
          /\ \A k \in 1..Len(t.w) - 1 : (s.w[k] \in M /\ s.w[k+1] \notin M) => \A j \in k+1..Len(t.w) : s.w[j] \notin M
\* Removing keeps everything else: order, edges between survivors, order of the empty nodes.
RemoveInv == \A n \in W, mode \in {"all", "rehang"} :
    LET s == RemoveWord(t, n, mode) IN
    /\ TreeOK(s)
    /\ n \notin Words(s)
    /\ \A x \in Words(s) : s.p[x] = (IF t.p[x] = n THEN t.p[n] ELSE t.p[x])
    /\ [k \in 1..Len(s.e) |-> s.e[k].i] = [k \in 1..Len(t.e) |-> t.e[k].i]
\* is_nonprojective_gap and is_nonprojective talk about the same trees.
ProjInv == (\E x \in W : NonProj(t, x)) <=> (\E x \in W : NonProjGap(t, x))
TokenInv == ~Torn(t) => /\ Len(Tokens(t)) = Len(t.w) - FoldSet(LAMBDA m, acc : acc + Cardinality(m.ws) - 1, 0, t.m)
                        /\ Cardinality(Range(Tokens(t))) = Len(Tokens(t))
TreeletInv == \A x, y \in W : x # y => /\ NearestCommon(t, {x, y}) \in {x, y} \cup TreeletAdded(t, {x, y})
                                       /\ (y \in Desc(t, x) => NearestCommon(t, {x, y}) = x)

EmitInv == Emit => PrintT("@@STIM " \o ToJson([w |-> t.w, p |-> [k \in 1..Len(t.w) |-> t.p[k]],
    e |-> [k \in 1..Len(t.e) |-> <<t.e[k].i, t.e[k].a, t.e[k].b>>],
    m |-> SetToSeq({SetToSortSeq(m.ws, <) : m \in t.m}), s |-> SetToSortSeq(t.s, <),
    d |-> SetToSeq({<<x, [k \in 1..Len(t.d[x]) |-> <<t.d[x][k].h, t.d[x][k].r>>]>> : x \in AllNodes(t)})]))
=============================================================================
