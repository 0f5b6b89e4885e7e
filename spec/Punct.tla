-------------------------------- MODULE Punct --------------------------------
(* ud.FixPunct: where punctuation hangs.  Trees are those of Fixes.             *)
(* o: [upos: are brackets punctuation only if tagged so, enh: copy to enhanced]. *)
EXTENDS Fixes

Closing == [c \in {"(", "[", "{", "'", "\""} |-> CASE c = "(" -> ")" [] c = "[" -> "]" [] c = "{" -> "}" [] OTHER -> c]
Quotes == {"'", "\""}
Brackets == {"(", "[", "{", ")", "]", "}", "?", "!"}
Final == {".", "?", "!"}
Tagged(w, x) == w[x].u = "PUNCT"
IsPunct(w, x, o) == Tagged(w, x) \/ (~o.upos /\ w[x].f \in Brackets)
Puncts(w, o) == {x \in 1..Len(w) : IsPunct(w, x, o)}
\* x would hang in a gap of another subtree, and its head does not
MakesGap(w, x) == InGap(w, x) /\ ~(w[x].h # 0 /\ InGap(w, w[x].h))
Good(w, x) == ~NonProj(w, x) /\ ~MakesGap(w, x)
Span(w, x) == Desc(w, x) \cup {x}

(* 1. punctuation has no children *)
Leafed(w, o) == [x \in 1..Len(w) |-> [w[x] EXCEPT !.h = Up(w, @, Puncts(w, o))]]

(* 2. pairs hang on what is between them *)
RECURSIVE Mate(_, _, _, _, _)
\* The word which closes what x opens, 0 if there is none; y: the next one, deep: how many are open
Mate(w, x, y, deep, o) ==
    IF y > Len(w) THEN 0
    ELSE IF ~IsPunct(w, y, o) THEN Mate(w, x, y + 1, deep, o)
    ELSE IF w[y].f = Closing[w[x].f] THEN (IF deep = 0 THEN y ELSE Mate(w, x, y + 1, deep - 1, o))
    ELSE Mate(w, x, y + 1, IF w[y].f = w[x].f THEN deep + 1 ELSE deep, o)
\* Words between x and y with heads or children elsewhere
Ends(w, x, y) ==
    LET In == (x + 1)..(y - 1) H == {i \in In : w[i].h < x \/ w[i].h > y} \cup {w[i].h : i \in {j \in 1..Len(w) \ (In \cup {x, y}) : w[j].h \in In}}
        N == {i \in H : ~Tagged(w, i)}
    IN IF N = {} THEN H ELSE N
RECURSIVE Shift(_, _, _, _)
\* Attach x to the next word in the direction up to the end at which it is all right
Shift(w, x, to, end) ==
    LET v == [w EXCEPT ![x].h = to] next == IF to < end THEN to + 1 ELSE to - 1 IN
    IF to # end /\ (Tagged(w, to) \/ ~Good(v, x)) THEN Shift(w, x, next, end) ELSE v
Pair(s, x, y) ==
    LET H == Ends(s.w, x, y) v == [s.w EXCEPT ![x].h = Min(H), ![y].h = Max(H)]
        v1 == IF MakesGap(v, x) THEN Shift(v, x, x + 1, y - 1) ELSE v
        v2 == IF MakesGap(v1, y) THEN Shift(v1, y, y - 1, x + 1) ELSE v1
    IN IF H = {} THEN s ELSE [w |-> v2, t |-> [s.t EXCEPT ![x] = "opening", ![y] = "closing"]]
Opens(w, t, x, o) == t[x] # "closing" /\ w[x].f \in DOMAIN Closing /\ (o.upos \/ w[x].f \in Quotes => Tagged(w, x))
Paired(w, o) ==
    FoldLeft(LAMBDA s, x : IF ~Opens(s.w, s.t, x, o) THEN s ELSE LET y == Mate(s.w, x, x + 1, 0, o) IN IF y = 0 THEN s ELSE Pair(s, x, y),
             [w |-> w, t |-> [x \in 1..Len(w) |-> ""]], [x \in 1..Len(w) |-> x])

(* 3. other punctuation hangs on a neighboring subtree, the closest head up to the highest one which is all right *)
None == 0 - 1
RECURSIVE LeftOf(_, _, _, _)
LeftOf(w, t, x, i) == IF i <= 0 \/ ~Tagged(w, i) THEN i ELSE IF t[i] = "opening" /\ w[i].h # x THEN None ELSE LeftOf(w, t, x, i - 1)
RECURSIVE RightOf(_, _, _, _)
RightOf(w, t, x, i) == IF i > Len(w) THEN None ELSE IF ~Tagged(w, i) THEN i ELSE IF t[i] = "closing" /\ w[i].h # x THEN None ELSE RightOf(w, t, x, i + 1)
RECURSIVE ClimbLeft(_, _, _)
ClimbLeft(w, x, i) == <<i>> \o (IF w[i].h # 0 /\ w[i].h < x /\ ~(x < Max(Span(w, i))) THEN ClimbLeft(w, x, w[i].h) ELSE <<>>)
RECURSIVE ClimbRight(_, _, _)
ClimbRight(w, x, i) == <<i>> \o (IF x < w[i].h /\ ~(Min(Span(w, i)) < x) THEN ClimbRight(w, x, w[i].h) ELSE <<>>)
Sides(w, t, x) ==
    LET left == LeftOf(w, t, x, x - 1)
        right == IF w[x].f \in Final /\ left # None THEN None ELSE RightOf(w, t, x, x + 1)
        ok(q) == SelectSeq(q, LAMBDA c : ~Under(w, c, x) /\ Good([w EXCEPT ![x].h = c], x))
    IN [l |-> IF left <= 0 THEN <<>> ELSE ok(ClimbLeft(w, x, left)), r |-> IF right = None THEN <<>> ELSE ok(ClimbRight(w, x, right))]
\* Left as it is: a dot on the previous word, punctuation at both ends of a subtree
Settled(w, x) ==
    LET h == w[x].h S == Span(w, h) IN
    \/ w[x].f = "." /\ h = x - 1
    \/ h # 0 /\ x \in {Min(S), Max(S)} /\ Cardinality(S) = Max(S) - Min(S) + 1 /\ \A e \in {Min(S), Max(S)} : Tagged(w, e) /\ w[e].h = h
\* <<new tree, was there a way>>
Attached(w, t, x) ==
    LET s == Sides(w, t, x) lc == IF s.l = <<>> THEN None ELSE Last(s.l) rc == IF s.r = <<>> THEN None ELSE Last(s.r)
        lower == IF lc = None \/ rc = None THEN "" ELSE IF Under(w, lc, rc) THEN "l" ELSE IF Under(w, rc, lc) THEN "r" ELSE ""
        path == CASE lower = "l" -> s.l [] lower = "r" -> s.r [] OTHER -> s.l \o s.r
        to == IF lower = "r" \/ lc = None THEN rc ELSE lc
    IN IF Settled(w, x) THEN <<w, TRUE>>
       ELSE IF path = <<>> THEN <<w, FALSE>>
       ELSE <<[w EXCEPT ![x].h = IF @ \in SetOf(path) THEN @ ELSE to, ![x].d = "punct"], TRUE>>
RECURSIVE Rest(_, _, _)
\* Those for which there is no way wait for the other ones
Rest(w, t, q) ==
    LET s == FoldLeft(LAMBDA a, x : LET v == Attached(a[1], t, x) IN <<v[1], IF v[2] THEN a[2] ELSE Append(a[2], x)>>, <<w, <<>>>>, q)
    IN IF q = <<>> \/ Len(s[2]) = Len(q) THEN s[1] ELSE Rest(s[1], t, s[2])

(* 4. one subroot *)
Rooted(w, o) ==
    LET K == Kids(w, 0) R == {x \in K : Uni(w[x].d) = "root"} top == IF R = {} THEN Min(K) ELSE Min(R)
        v == Move(w, K \ {top}, top)
        as(d, u) == IF Sub(d) = "" THEN u ELSE u \o ":" \o Sub(d)
    IN IF Uni(v[top].d) = "root" THEN v
       ELSE [x \in 1..Len(v) |-> IF x = top THEN [v[x] EXCEPT !.d = as(@, "root"), !.ed = IF o.enh THEN <<[h |-> 0, d |-> "root"]>> ELSE @]
                                 ELSE IF Uni(v[x].d) = "root" THEN [v[x] EXCEPT !.d = as(@, "punct")] ELSE v[x]]
Copied(w, o) == [x \in 1..Len(w) |-> IF o.enh /\ Tagged(w, x) THEN [w[x] EXCEPT !.ed = <<[h |-> w[x].h, d |-> w[x].d]>>] ELSE w[x]]

Punctuated(w, o) ==
    IF w = <<>> THEN w
    ELSE LET s == Paired(Leafed(w, o), o)
             q == SelectSeq([x \in 1..Len(w) |-> x], LAMBDA x : Tagged(w, x) /\ s.t[x] = "")
         IN Copied(Rooted(Rest(s.w, s.t, q), o), o)

(******************************** what it is for *****************************)
\* Trees on which nothing prevents all of it: projective, one subroot, punctuation tagged so and without children, pairs do not cross, are not empty and punctuation in them hangs in them
Mates(w, o) == {<<x, y>> \in (1..Len(w)) \X (1..Len(w)) : x < y /\ w[x].f \in DOMAIN Closing /\ Tagged(w, x) /\ Mate(w, x, x + 1, 0, o) = y}
Usual(w, o) ==
    /\ w # <<>> /\ Projective(w) /\ Cardinality(Kids(w, 0)) = 1 /\ \A x \in 1..Len(w) : Uni(w[x].d) = "root" <=> w[x].h = 0
    /\ \A x \in Puncts(w, o) : Tagged(w, x) /\ w[x].h # 0 /\ Kids(w, x) = {}
    /\ \A a, b \in Mates(w, o) : ~(a[1] < b[1] /\ b[1] < a[2] /\ a[2] < b[2])
    /\ \A a \in Mates(w, o) : (\E x \in a[1]..a[2] : ~Tagged(w, x)) /\ \A x \in (a[1] + 1)..(a[2] - 1) : Tagged(w, x) => w[x].h \in a[1]..a[2]
\* v: the result for w
Reached(w, v, o) ==
    LET P == Puncts(w, o) N == 1..Len(w) IN
    [root |-> w = <<>> \/ (Cardinality(Kids(v, 0)) = 1 /\ Uni(v[Min(Kids(v, 0))].d) = "root"),
     others |-> Usual(w, o) => \A x \in N \ P : v[x] = w[x],
     leaves |-> Usual(w, o) => \A x \in P : Kids(v, x) = {},
     projective |-> Usual(w, o) => Projective(v) /\ \A x \in P : ~InGap(v, x),
     \* the two of a pair around one subtree hang on its head
     pairs |-> Usual(w, o) => \A a \in Mates(w, o) :
                   LET H == {x \in (a[1] + 1)..(a[2] - 1) \ P : v[x].h \notin (a[1] + 1)..(a[2] - 1)} IN
                   Cardinality(H) = 1 /\ (\A x \in N \ (a[1]..a[2]) : w[x].h \notin a[1]..a[2]) /\ (\A b \in Mates(w, o) \ {a} : a[1] \notin SetOf(b) /\ a[2] \notin SetOf(b))
                       => v[a[1]].h \in H /\ v[a[2]].h \in H]
=============================================================================
