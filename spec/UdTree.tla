------------------------------- MODULE UdTree -------------------------------
(***************************************************************************)
(* One dependency tree with its words, multi-word tokens, empty nodes and  *)
(* enhanced dependencies, and the editing operations of the public API.    *)
(*                                                                         *)
(* A tree t is a record                                                    *)
(*   w : sequence of word ids (the word order; ids are positive integers)  *)
(*   p : function word id -> parent id; 0 is the technical root            *)
(*   e : sequence of empty nodes [i |-> id, a |-> major, b |-> minor] in   *)
(*       order; the empty node a.b stands between words a and a+1          *)
(*   m : set of multi-word tokens [ws |-> set of word ids, sa |-> BOOLEAN  *)
(*       (SpaceAfter=No on the token), f |-> form]                         *)
(*   s : set of the words carrying SpaceAfter=No                           *)
(*   d : function (word or empty id) -> sequence of [h |-> id, r |-> rel]  *)
(* Word ids never change; positions do.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Words(t) == {t.w[k] : k \in 1..Len(t.w)}
Empties(t) == {t.e[k].i : k \in 1..Len(t.e)}
AllNodes(t) == Words(t) \cup Empties(t)

\* The position of a word; the technical root is at 0.
Pos(t, x) == IF x = 0 THEN 0 ELSE CHOOSE k \in 1..Len(t.w) : t.w[k] = x

RECURSIVE ClimbN(_, _, _)
\* The chain of ancestors of x, at most n long (total even on a malformed p).
ClimbN(p, x, n) == IF n = 0 \/ x = 0 \/ x \notin DOMAIN p THEN <<>>
                   ELSE <<p[x]>> \o ClimbN(p, p[x], n - 1)

Anc(t, x) == Range(ClimbN(t.p, x, Len(t.w) + 1))
Desc(t, x) == IF x = 0 THEN Words(t) ELSE {y \in Words(t) : x \in Anc(t, y)}
Acyclic(t) == \A x \in Words(t) : 0 \in Anc(t, x)
Children(t, x) == SelectSeq(t.w, LAMBDA y : t.p[y] = x)
Depth(t, x) == Len(ClimbN(t.p, x, Len(t.w) + 1))

(***************************** well-formedness *****************************)
EmptyLess(e1, e2) == e1.a < e2.a \/ (e1.a = e2.a /\ e1.b < e2.b)
EmptiesOK(t) == /\ \A k \in 1..Len(t.e) : t.e[k].a \in 0..Len(t.w) /\ t.e[k].b >= 1
                /\ \A k \in 1..Len(t.e) - 1 : EmptyLess(t.e[k], t.e[k+1])
MwtOK(t) == /\ \A m \in t.m : m.ws # {} /\ m.ws \subseteq Words(t)
            /\ \A m1, m2 \in t.m : m1 # m2 => m1.ws \cap m2.ws = {}
DepsOK(t) == /\ DOMAIN t.d = AllNodes(t)
             /\ \A x \in AllNodes(t) : \A k \in 1..Len(t.d[x]) : t.d[x][k].h \in AllNodes(t) \cup {0}
TreeOK(t) == /\ Cardinality(Words(t)) = Len(t.w)
             /\ DOMAIN t.p = Words(t)
             /\ \A x \in Words(t) : t.p[x] \in Words(t) \cup {0}
             /\ Acyclic(t) /\ EmptiesOK(t) /\ MwtOK(t) /\ DepsOK(t)

(******************************** projectivity *****************************)
\* x hangs on its parent non-projectively: some word strictly between them is not dominated by the parent.
NonProj(t, x) == LET q == t.p[x] IN
    /\ q # 0
    /\ \E k \in 1..Len(t.w) :
          /\ (Pos(t, x) < k /\ k < Pos(t, q)) \/ (Pos(t, q) < k /\ k < Pos(t, x))
          /\ t.w[k] \notin Desc(t, q)
\* x lies inside the span of a subtree it does not belong to.
NonProjGap(t, x) == \E y \in Words(t) \ {x} :
    /\ y \notin Anc(t, x)
    /\ LET S == {Pos(t, z) : z \in Desc(t, y) \cup {y}} IN Min(S) < Pos(t, x) /\ Pos(t, x) < Max(S)

(************************* moving and removing words ************************)
\* Where an empty node ends up when the words in G leave their places: it stays after the closest
\* preceding word that does not leave, and that word's new position is its new major number.
NewMajor(w, neww, G, a) ==
    LET stay == {k \in 1..a : w[k] \notin G} IN
    IF stay = {} THEN 0 ELSE CHOOSE k \in 1..Len(neww) : neww[k] = w[Max(stay)]

\* The empty nodes keep their order; minors are renumbered only as far as the specification of an
\* operation says.  Anchors(e) is the sequence of <<id, major>> that is fixed in any case.
Anchors(e) == [k \in 1..Len(e) |-> <<e[k].i, e[k].a>>]
MovedAnchors(t, neww, G) == [k \in 1..Len(t.e) |-> <<t.e[k].i, NewMajor(t.w, neww, G, t.e[k].a)>>]

RECURSIVE Renumber(_, _)
\* One numbering that satisfies the anchors: minors 1, 2, ... after each word.
Renumber(anchors, done) ==
    IF anchors = <<>> THEN done
    ELSE LET x == Head(anchors)
             b == IF done # <<>> /\ Last(done).a = x[2] THEN Last(done).b + 1 ELSE 1
         IN Renumber(Tail(anchors), Append(done, [i |-> x[1], a |-> x[2], b |-> b]))

Moved(t, n, alone) == IF alone THEN {n} ELSE {n} \cup Desc(t, n)

\* The order after taking the words of M out and putting them back, in their order, before the word at position r.
MoveBefore(w, M, r) ==
    LET left  == SelectSeq(SubSeq(w, 1, r - 1), LAMBDA x : x \notin M)
        mid   == SelectSeq(w, LAMBDA x : x \in M)
        right == SelectSeq(SubSeq(w, r, Len(w)), LAMBDA x : x \notin M)
    IN left \o mid \o right

\* kind: "an" after node, "bn" before node, "as" after subtree, "bs" before subtree
ShiftTarget(t, n, kind, ref) ==
    LET S == {Pos(t, ref)} \cup {Pos(t, y) : y \in Desc(t, ref) \ {n}} IN
    CASE kind = "an" -> Pos(t, ref) + 1
      [] kind = "bn" -> Pos(t, ref)
      [] kind = "as" -> Max(S) + 1
      [] kind = "bs" -> Min(S)
ShiftRefused(t, n, kind, ref, alone, skip) ==
    \/ n = 0
    \/ kind \in {"bn", "bs"} /\ ref = 0
    \/ ~alone /\ ~skip /\ ref \in Desc(t, n)
ShiftNoop(t, n, kind, ref, alone, skip) == ~alone /\ skip /\ ref \in Desc(t, n) /\ ref # 0
ShiftW(t, n, kind, ref, alone) == MoveBefore(t.w, Moved(t, n, alone), ShiftTarget(t, n, kind, ref))
Shift(t, n, kind, ref, alone) ==
    LET neww == ShiftW(t, n, kind, ref, alone) IN
    [t EXCEPT !.w = neww, !.e = Renumber(MovedAnchors(t, neww, Moved(t, n, alone)), <<>>)]

\* Removing word n; mode: "all" (with descendants) or "rehang" (children go to n's parent)
Gone(t, n, mode) == IF mode = "rehang" THEN {n} ELSE {n} \cup Desc(t, n)
DropDeps(d, keep, G) == [x \in keep |-> SelectSeq(d[x], LAMBDA v : v.h \notin G)]
\* A token loses the removed words; with fewer than two words left it is no multi-word token any more.
DropMwt(m, G) == {k \in {[x EXCEPT !.ws = @ \ G] : x \in m} : Cardinality(k.ws) >= 2}
                 \cup {x \in m : x.ws \cap G = {}}
RemoveWord(t, n, mode) ==
    LET G == Gone(t, n, mode)
        neww == SelectSeq(t.w, LAMBDA x : x \notin G)
    IN [w |-> neww,
        p |-> [x \in Words(t) \ G |-> IF t.p[x] = n THEN t.p[n] ELSE t.p[x]],
        e |-> Renumber(MovedAnchors(t, neww, G), <<>>),
        m |-> DropMwt(t.m, G),
        s |-> t.s \ G,
        d |-> DropDeps(t.d, (Words(t) \ G) \cup Empties(t), G)]

(********************************* topology ********************************)
ParentRefused(t, n, q) == q = n \/ q \in Empties(t) \/ (q # 0 /\ q \in Desc(t, n)) \/ q \notin Words(t) \cup {0}
SetParent(t, n, q) == [t EXCEPT !.p = [@ EXCEPT ![n] = q]]
CreateChild(t, q, id) == [t EXCEPT !.w = Append(@, id),
                                   !.p = [x \in Words(t) \cup {id} |-> IF x = id THEN q ELSE t.p[x]],
                                   !.d = [x \in AllNodes(t) \cup {id} |-> IF x = id THEN <<>> ELSE t.d[x]]]
Flatten(t) == [t EXCEPT !.p = [x \in Words(t) |-> 0]]

(******************************* empty nodes *******************************)
FreeMinor(t, a) == Min((1..Len(t.e) + 1) \ {t.e[k].b : k \in {j \in 1..Len(t.e) : t.e[j].a = a}})
EmptyAt(t, n, after) == IF after THEN Pos(t, n) ELSE Pos(t, n) - 1
CreateEmpty(t, n, after, rel, id) ==
    LET a == EmptyAt(t, n, after)
        new == [i |-> id, a |-> a, b |-> FreeMinor(t, a)]
        before == SelectSeq(t.e, LAMBDA x : EmptyLess(x, new))
        behind == SelectSeq(t.e, LAMBDA x : EmptyLess(new, x))
    IN [t EXCEPT !.e = before \o <<new>> \o behind,
                 !.d = [x \in AllNodes(t) \cup {id} |-> IF x = id THEN <<[h |-> n, r |-> rel]>> ELSE t.d[x]]]
EmptyById(t, id) == t.e[CHOOSE k \in 1..Len(t.e) : t.e[k].i = id]
RemoveEmpty(t, id) ==
    LET x == EmptyById(t, id)
        keep == SelectSeq(t.e, LAMBDA y : y.i # id)
    IN [t EXCEPT !.e = [k \in 1..Len(keep) |-> IF keep[k].a = x.a /\ keep[k].b > x.b
                                               THEN [keep[k] EXCEPT !.b = @ - 1] ELSE keep[k]],
                 !.d = DropDeps(t.d, AllNodes(t) \ {id}, {id})]

(***************************** multi-word tokens ***************************)
\* A word belongs to one token at most: earlier tokens of any of the words are dissolved.  The token takes
\* over SpaceAfter=No from its last word, and its words carry none.
CreateMwt(t, ws, f) ==
    LET last == CHOOSE x \in ws : \A y \in ws : Pos(t, y) <= Pos(t, x) IN
    [t EXCEPT !.m = {x \in @ : x.ws \cap ws = {}} \cup {[ws |-> ws, sa |-> last \in t.s, f |-> f]},
              !.s = @ \ ws]
RemoveMwt(t, x) == [t EXCEPT !.m = {k \in @ : x \notin k.ws}]
MwtOf(t, x) == {m \in t.m : x \in m.ws}
FirstPos(t, ws) == Min({Pos(t, x) : x \in ws})
LastPos(t, ws) == Max({Pos(t, x) : x \in ws})
Contiguous(t, ws) == LastPos(t, ws) - FirstPos(t, ws) + 1 = Cardinality(ws)
\* The surface tokens: every multi-word token once, at its first word, and every other word.
Tokens(t) ==
    LET first(x) == \A m \in MwtOf(t, x) : Pos(t, x) = FirstPos(t, m.ws)
        kept == SelectSeq(t.w, first)
    IN [k \in 1..Len(kept) |-> IF MwtOf(t, kept[k]) = {} THEN <<"w", {kept[k]}>>
                               ELSE <<"m", (CHOOSE m \in MwtOf(t, kept[k]) : TRUE).ws>>]

(************************** moving between two trees ***********************)
\* The words of S leave tree s and are appended, in order, to tree t.
StealTarget(s, t, S) ==
    LET moved == SelectSeq(s.w, LAMBDA x : x \in S) IN
    [w |-> t.w \o moved,
     p |-> [x \in Words(t) \cup S |-> IF x \in S THEN (IF s.p[x] \in S THEN s.p[x] ELSE 0) ELSE t.p[x]]]
StealSource(s, S) ==
    [w |-> SelectSeq(s.w, LAMBDA x : x \notin S),
     p |-> [x \in Words(s) \ S |-> IF s.p[x] \in S THEN 0 ELSE s.p[x]]]
\* Multi-word tokens whose words all move go along; those with no moved word stay.
StealWholeMwt(s, S) == {m \in s.m : m.ws \subseteq S}
StealStayMwt(s, S) == {m \in s.m : m.ws \cap S = {}}

(********************************** treelets *******************************)
DomSelf(t, x) == {x} \cup Anc(t, x)
NearestCommon(t, X) == CHOOSE a \in Words(t) \cup {0} :
    /\ \A x \in X : a \in DomSelf(t, x)
    /\ \A b \in Words(t) \cup {0} : (\A x \in X : b \in DomSelf(t, x)) => b \in DomSelf(t, a)
TreeletAdded(t, X) == LET a == NearestCommon(t, X) IN
    {y \in Words(t) \cup {0} : /\ y \notin X
                               /\ a \in DomSelf(t, y)
                               /\ \E x \in X : y \in DomSelf(t, x)}
=============================================================================
