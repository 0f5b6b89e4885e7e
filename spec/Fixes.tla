-------------------------------- MODULE Fixes --------------------------------
(* Blocks which repair or transform trees.  A tree is a sequence of words      *)
(* [h: position of the head, 0 for the root; f, l, u, d: form, lemma, upos,      *)
(* deprel; mi: value of the attribute pproj of MISC; ed: enhanced dependencies   *)
(* [h, d]].  No block here moves, adds or removes words.                          *)
EXTENDS Str, SequencesExt, FiniteSetsExt

SetOf(q) == {q[i] : i \in 1..Len(q)}
Uni(d) == Split1(d, ":")[1]
Sub(d) == LET q == Split1(d, ":") IN IF Len(q) = 1 THEN "" ELSE q[2]
Kids(w, x) == {i \in 1..Len(w) : w[i].h = x}
RECURSIVE Chain(_, _)
\* The words above x, from its head on; 0 at the end
Chain(w, x) == IF x = 0 THEN <<>> ELSE <<w[x].h>> \o Chain(w, w[x].h)
Under(w, x, y) == y \in SetOf(Chain(w, x))
Desc(w, y) == {x \in 1..Len(w) : Under(w, x, y)}
Between(x, y) == IF x < y THEN (x + 1)..(y - 1) ELSE (y + 1)..(x - 1)
Crossing(w, x, y) == y # 0 /\ \E z \in Between(x, y) : ~Under(w, z, y)
NonProj(w, x) == Crossing(w, x, w[x].h)
Projective(w) == \A x \in 1..Len(w) : ~NonProj(w, x)
\* x lies in the span of a subtree it does not belong to
InGap(w, x) == \E y \in 1..Len(w) \ {x} : ~Under(w, x, y) /\ LET S == Desc(w, y) \cup {y} IN Min(S) < x /\ x < Max(S)
IsTree(w) == \A x \in 1..Len(w) : w[x].h \in 0..Len(w) /\ FoldLeft(LAMBDA a, z : IF a = 0 THEN 0 ELSE w[a].h, x, [z \in 1..Len(w) |-> z]) = 0
\* The closest word above x (or x itself) not in B
RECURSIVE Up(_, _, _)
Up(w, x, B) == IF x \notin B THEN x ELSE Up(w, w[x].h, B)
With(w, D) == {x \in 1..Len(w) : Uni(w[x].d) \in D}
Each(w, F(_, _)) == FoldLeft(LAMBDA v, i : F(v, i), w, [i \in 1..Len(w) |-> i])
Move(w, K, to) == [i \in 1..Len(w) |-> IF i \in K THEN [w[i] EXCEPT !.h = to] ELSE w[i]]

(************************ transform.Proj, Deproj, Flatten ********************)
\* Lifting: the lowest head at which the edge is projective
Lift(w, x) == LET up == Chain(w, x) IN up[Min({k \in 1..Len(up) : ~Crossing(w, x, up[k])})]
Marked(w, x, h, label) ==
    LET was == Uni(w[w[x].h].d) IN
    IF label = "misc" THEN [w[x] EXCEPT !.h = h, !.mi = was] ELSE [w[x] EXCEPT !.h = h, !.d = Uni(@) \o ":" \o Sub(@) \o "+" \o was]
\* What makes v a projectivization of w
ProjOk(w, v, label) ==
    [projective |-> Projective(v),
     heads |-> \A x \in 1..Len(w) : v[x].h \in SetOf(Chain(w, x)),
     marks |-> \A x \in 1..Len(w) : v[x] = IF v[x].h = w[x].h THEN w[x] ELSE Marked(w, x, v[x].h, label),
     least |-> LET N == {x \in 1..Len(w) : NonProj(w, x)} IN
               /\ N = {} => v = w
               /\ Cardinality(N) = 1 => LET x == CHOOSE y \in N : TRUE u == [w EXCEPT ![x] = Marked(w, x, Lift(w, x), label)] IN Projective(u) => v = u]
\* One way to do it
RECURSIVE Raise(_, _, _, _)
Raise(w, q, M, label) ==
    LET N == {x \in 1..Len(w) : NonProj(w, x)} IN
    IF N = {} THEN w
    ELSE LET x == Min(N) IN Raise(IF x \in M THEN [w EXCEPT ![x].h = Lift(w, x)] ELSE [w EXCEPT ![x] = Marked(w, x, Lift(w, x), label)], q, M \cup {x}, label)
Projectivized(w, label) == Raise(w, <<>>, {}, label)

RECURSIVE Search(_, _, _)
Inc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Search(w, q, label) ==
    IF q = <<>> THEN 0 ELSE IF Uni(w[q[1]].d) = label THEN q[1] ELSE Search(w, SubSeq(q, 2, Len(q)) \o Inc(Kids(w, q[1])), label)
Deprojectivized(w, label) ==
    Each(w, LAMBDA v, x :
        LET cut == Split1(Sub(v[x].d), "+")
            was == IF label = "misc" THEN v[x].mi ELSE IF Len(cut) = 2 THEN cut[2] ELSE ""
            y == IF label = "deprel" /\ Len(cut) = 2 THEN [v[x] EXCEPT !.d = Uni(@) \o (IF cut[1] = "" THEN "" ELSE ":" \o cut[1])] ELSE v[x]
            u == [v EXCEPT ![x] = y]
            p == Search(u, Inc(Kids(u, y.h) \ {x}), was)
        IN IF was = "" \/ p = 0 THEN u ELSE [u EXCEPT ![x].h = p])
Flattened(w, one) == [i \in 1..Len(w) |-> IF one /\ i > 1 THEN [w[i] EXCEPT !.h = 1, !.d = "dep"] ELSE [w[i] EXCEPT !.h = 0, !.d = "root"]]

(*********************************** ud.Fix* *********************************)
NoChains(w, D) == [x \in 1..Len(w) |-> IF Uni(w[x].d) \in D THEN [w[x] EXCEPT !.h = Up(w, @, With(w, {Uni(w[x].d)}))] ELSE w[x]]
RECURSIVE Swap(_, _, _)
Swap(w, x, D) ==
    LET p == w[x].h IN
    IF p = 0 \/ ~(x < p /\ Uni(w[x].d) \in D) THEN w
    ELSE LET K == IF Uni(w[x].d) = "conj" THEN {} ELSE Kids(w, p) \ {x}
             v == Move(w, K, x)
         IN Swap([v EXCEPT ![x].h = w[p].h, ![x].d = w[p].d, ![p].h = x, ![p].d = w[x].d], x, D)
HeadInitial(w, D) == Each(w, LAMBDA v, x : Swap(v, x, D))
OneRoot(w) ==
    LET top == Min(Kids(w, 0)) IN
    IF w = <<>> THEN w
    ELSE [i \in 1..Len(w) |-> IF i = top THEN [w[i] EXCEPT !.d = IF Uni(@) = "root" THEN @ ELSE "root"]
                              ELSE IF w[i].h = 0 THEN [w[i] EXCEPT !.h = top, !.d = "parataxis"]
                              ELSE IF Uni(w[i].d) = "root" THEN [w[i] EXCEPT !.d = "parataxis"] ELSE w[i]]
\* Only these may depend on a function word
Allowed(d) == {"fixed", "punct", "goeswith", "reparandum"} \cup (IF d = "cc" THEN {} ELSE {"conj", "cc"})
Leaves(w, D) ==
    Each(w, LAMBDA v, x :
        IF Uni(v[x].d) \notin D THEN v
        ELSE LET a == Up(v, v[x].h, With(v, D))
                 K == {i \in Kids(v, x) : Uni(v[i].d) \notin Allowed(Uni(v[x].d))}
             IN [i \in 1..Len(v) |-> IF i \in K THEN [v[i] EXCEPT !.h = a, !.ed = [j \in 1..Len(@) |-> IF @[j].h = x THEN [@[j] EXCEPT !.h = a] ELSE @[j]]] ELSE v[i]])
IsSubj(d) == Uni(d) \in {"nsubj", "csubj"} /\ ~EndsWith(d, ":outer")
OneSubject(w) == [i \in 1..Len(w) |-> IF IsSubj(w[i].d) /\ \E j \in 1..(i - 1) : w[j].h = w[i].h /\ IsSubj(w[j].d) /\ w[i].h # 0
                                      THEN [w[i] EXCEPT !.d = IF StartsWith(@, "n") THEN "obl" ELSE "advcl"] ELSE w[i]]
PunctLeaves(w) == [x \in 1..Len(w) |-> [w[x] EXCEPT !.h = Up(w, @, {y \in 1..Len(w) : w[y].d = "punct"})]]
HasDigit(s) == \E i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE Name(_, _)
Name(w, x) ==
    LET p == w[x].h IN
    IF p = 0 \/ ~(w[x].u = "PROPN" /\ Uni(w[x].d) = "compound") THEN w
    ELSE LET N == {i \in Kids(w, p) \cup {p} : w[i].u = "PROPN" /\ (i = p \/ Uni(w[i].d) = "compound")} first == Min(N) IN
         IF w[p].u # "PROPN" \/ \E i \in N : HasDigit(w[i].f) THEN w
         ELSE Name([i \in 1..Len(w) |-> IF i = first THEN (IF i = p THEN w[i] ELSE [w[i] EXCEPT !.h = w[p].h, !.d = w[p].d])
                                        ELSE IF i \in N THEN [w[i] EXCEPT !.h = first, !.d = "flat:name"] ELSE w[i]], x)
Names(w) == Each(w, LAMBDA v, x : Name(v, x))
Clausal == {"nsubj", "csubj", "advmod", "advcl", "obj", "iobj", "obl", "aux", "mark", "punct", "cc", "expl", "dislocated", "vocative", "discourse", "parataxis"}
PseudoCop(w, L, aux) ==
    Each(w, LAMBDA v, x :
        LET p == v[x].h IN
        IF v[x].l \notin L THEN v
        ELSE IF p # 0 /\ (Uni(v[x].d) = "cop" \/ (aux /\ Uni(v[x].d) = "aux"))
             THEN LET K == {i \in Kids(v, p) \ {x} : \E c \in Clausal : StartsWith(Uni(v[i].d), c)} u == Move(v, K, x) IN
                  [u EXCEPT ![x].h = v[p].h, ![x].d = v[p].d, ![x].u = "VERB", ![p].h = x, ![p].d = "xcomp"]
        ELSE IF aux /\ v[x].u = "AUX" THEN [v EXCEPT ![x].u = "VERB"] ELSE v)
Enhanced(w) == [i \in 1..Len(w) |-> IF w[i].ed = <<>> THEN [w[i] EXCEPT !.ed = <<[h |-> w[i].h, d |-> w[i].d]>>] ELSE w[i]]

\* o: [b: block, D: deprels, one, label, L: lemmas, aux]
Fixed(w, o) ==
    CASE o.b = "deproj" -> Deprojectivized(w, o.label)
      [] o.b = "flatten" -> Flattened(w, o.one)
      [] o.b = "chain" -> NoChains(w, SetOf(o.D))
      [] o.b = "right" -> HeadInitial(w, SetOf(o.D))
      [] o.b = "root" -> OneRoot(w)
      [] o.b = "leaf" -> Leaves(w, SetOf(o.D))
      [] o.b = "subj" -> OneSubject(w)
      [] o.b = "name" -> Names(w)
      [] o.b = "pchild" -> PunctLeaves(w)
      [] o.b = "cop" -> PseudoCop(w, SetOf(o.L), o.aux)
      [] o.b = "deps" -> Enhanced(w)
\* What each block is for
Goal(w, o) ==
    CASE o.b = "deproj" -> TRUE
      [] o.b = "flatten" -> \A x \in 1..Len(w) : w[x].h = IF o.one /\ x > 1 THEN 1 ELSE 0
      [] o.b = "chain" -> \A x \in 1..Len(w) : w[x].h # 0 /\ Uni(w[x].d) \in SetOf(o.D) => Uni(w[w[x].h].d) # Uni(w[x].d)
      [] o.b = "right" -> \A x \in 1..Len(w) : w[x].h # 0 /\ Uni(w[x].d) \in SetOf(o.D) => w[x].h < x
      [] o.b = "root" -> Cardinality(Kids(w, 0)) = (IF w = <<>> THEN 0 ELSE 1) /\ \A x \in 1..Len(w) : (w[x].h = 0) = (Uni(w[x].d) = "root")
      [] o.b = "leaf" -> \A x \in 1..Len(w) : w[x].h # 0 /\ Uni(w[w[x].h].d) \in SetOf(o.D) => Uni(w[x].d) \in Allowed(Uni(w[w[x].h].d))
      [] o.b = "subj" -> \A x, y \in 1..Len(w) : x # y /\ w[x].h = w[y].h /\ w[x].h # 0 => ~(IsSubj(w[x].d) /\ IsSubj(w[y].d))
      [] o.b = "name" -> \A x \in 1..Len(w) : LET p == w[x].h IN
                            p # 0 /\ w[x].u = "PROPN" /\ Uni(w[x].d) = "compound" /\ w[p].u = "PROPN" =>
                                \E i \in Kids(w, p) \cup {p} : w[i].u = "PROPN" /\ HasDigit(w[i].f)
      [] o.b = "pchild" -> \A x \in 1..Len(w) : w[x].h # 0 => w[w[x].h].d # "punct"
      [] o.b = "cop" -> \A x \in 1..Len(w) : w[x].l \in SetOf(o.L) /\ w[x].h # 0 /\ Uni(w[x].d) = "cop" => w[x].u = "VERB"
      [] o.b = "deps" -> \A x \in 1..Len(w) : w[x].ed # <<>>
=============================================================================
