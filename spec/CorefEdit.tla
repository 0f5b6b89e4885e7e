------------------------------ MODULE CorefEdit ------------------------------
(* Editing coreference through objects.  A state is [e: entities [id, ty] in   *)
(* the order of creation, m: mentions [e: number of the entity, 0 once it is   *)
(* removed; s: sentence; w: words in order; h: head; o: other attributes;      *)
(* b: bridging links [t: number of the entity, r]]].  ords: for every sentence *)
(* the ords of its words as strings ("2", "2.1" for an empty node).            *)
EXTENDS Coref

EmptyState == [e |-> <<>>, m |-> <<>>]
Forbidden(id) == \E i \in 1..Len(id) : Ch(id, i) \in {"-", "=", "|", " ", "\t", "(", ")"}
Ids(st) == {st.e[i].id : i \in 1..Len(st.e)}
FreeId(st) == "e" \o Num(CHOOSE n \in 1..(Len(st.e) + 1) : "e" \o Num(n) \notin Ids(st) /\ \A k \in 1..(n - 1) : "e" \o Num(k) \in Ids(st))
InOrder(W) == SetToSortSeq(W, LAMBDA x, y : x < y)

(************************************* spans *********************************)
\* Ords as numbers: 2.1 is 21
OrdOk(t) == LET a == Split(t, ".") IN Len(a) \in 1..2 /\ \A i \in 1..Len(a) : IsNumber(a[i])
OrdNum(t) == LET a == Split(t, ".") IN 10 * ToNat(a[1]) + (IF Len(a) = 2 THEN ToNat(a[2]) ELSE 0)
SpanOk(t) == \A x \in SetOf(Split(t, ",")) : LET a == Split(x, "-") IN Len(a) \in 1..2 /\ \A i \in 1..Len(a) : OrdOk(a[i])
SpanWords(o, t) == {p \in 1..Len(o) : \E x \in SetOf(Split(t, ",")) : LET a == Split(x, "-") IN OrdNum(a[1]) <= OrdNum(o[p]) /\ OrdNum(o[p]) <= OrdNum(Last(a))}
\* Neighbouring words make one range
SpanStr(o, w) == LET r == Runs(w) IN Join([i \in 1..Len(r) |-> IF Len(r[i]) = 1 THEN o[r[i][1]] ELSE o[r[i][1]] \o "-" \o o[Last(r[i])]], ",")

(*********************************** operations ******************************)
\* op: [op, ...]; the result is the next state, or Refused if the call has to be refused (and nothing changes)
Refused == [e |-> <<>>, m |-> <<>>, refused |-> TRUE]
Entity(st, id, ty) == IF id # "" /\ (id \in Ids(st) \/ Forbidden(id)) THEN Refused
                      ELSE [st EXCEPT !.e = Append(@, [id |-> IF id = "" THEN FreeId(st) ELSE id, ty |-> ty])]
New(st, e, s, h, W) == [st EXCEPT !.m = Append(@, [e |-> e, s |-> s, w |-> InOrder(W), h |-> h, o |-> <<>>, b |-> <<>>])]
\* ws: the words as they were given; h = 0: no head; sp = "": no span
Mention(st, e, s, h, ws, sp, o) ==
    IF (ws # <<>> /\ sp # "") \/ (h = 0 /\ ws = <<>>) THEN Refused
    ELSE LET head == IF h = 0 THEN ws[1] ELSE h IN
         IF sp # "" /\ ~SpanOk(sp) THEN Refused
         ELSE LET W == IF sp # "" THEN SpanWords(o, sp) ELSE IF ws # <<>> THEN SetOf(ws) ELSE {head} IN
              IF head \notin W THEN Refused ELSE New(st, e, s, head, W)
Words(st, m, W) == IF st.m[m].h \notin W THEN Refused ELSE [st EXCEPT !.m[m].w = InOrder(W)]
Span(st, m, sp, o) == IF ~SpanOk(sp) THEN Refused ELSE Words(st, m, SpanWords(o, sp))
HeadTo(st, m, h) == IF h \notin SetOf(st.m[m].w) THEN Refused ELSE [st EXCEPT !.m[m].h = h]
Move(st, m, e) == [st EXCEPT !.m[m].e = e]
Drop(st, m) == [st EXCEPT !.m[m].e = 0]
Other(st, m, k, v) == [st EXCEPT !.m[m].o = Put(@, k, Escape(v))]
OtherText(st, m, t) == [st EXCEPT !.m[m].o = IF t = "" THEN <<>> ELSE ReadOther(<<>>, Split(t, ","))]
\* A mention does not refer to its own entity; i: the place of the link, Len + 1 to add one
Bridge(st, m, i, e, r) == IF e = st.m[m].e THEN Refused
                          ELSE [st EXCEPT !.m[m].b = IF i > Len(@) THEN Append(@, [t |-> e, r |-> r]) ELSE [@ EXCEPT ![i] = [t |-> e, r |-> r]]]
Unbridge(st, m, i) == [st EXCEPT !.m[m].b = Without(@, i)]
\* Targets of the links with one of the relations
Selected(st, m, R) == LET q == SelectSeq(st.m[m].b, LAMBDA l : \E r \in R : StartsWith(l.r, r)) IN [i \in 1..Len(q) |-> q[i].t]
Apply(st, x, ords) ==
    CASE x.op = "ent" -> Entity(st, x.id, x.ty)
      [] x.op = "men" -> Mention(st, x.e, x.s, x.h, x.ws, x.sp, ords[x.s])
      [] x.op = "words" -> Words(st, x.m, SetOf(x.ws))
      [] x.op = "span" -> Span(st, x.m, x.sp, ords[st.m[x.m].s])
      [] x.op = "head" -> HeadTo(st, x.m, x.h)
      [] x.op = "move" -> Move(st, x.m, x.e)
      [] x.op = "remove" -> Drop(st, x.m)
      [] x.op = "other" -> Other(st, x.m, x.k, x.v)
      [] x.op = "text" -> OtherText(st, x.m, x.v)
      [] x.op = "bridge" -> Bridge(st, x.m, x.i, x.e, x.r)
      [] x.op = "unbridge" -> Unbridge(st, x.m, x.i)
      [] OTHER -> st

(************************************** views ********************************)
Alive(st) == {k \in 1..Len(st.m) : st.m[k].e > 0}
\* Mentions of a word, of an entity
At(st, s, p) == {k \in Alive(st) : st.m[k].s = s /\ p \in SetOf(st.m[k].w)}
Of(st, i) == {k \in Alive(st) : st.m[k].e = i}
BeforeIn(st, k, j) == Before(st.m[k], st.e[st.m[k].e].id, st.m[j], st.e[st.m[j].e].id)
SortedKeys(st, q) == \A i, j \in 1..Len(q) : i < j => ~BeforeIn(st, q[j], q[i])
=============================================================================
