----------------------------- MODULE Trace_Coref -----------------------------
EXTENDS CorefEdit, TraceLib
VARIABLE l

(******************************** editing (K01) ******************************)
State(r) == [e |-> r.e, m |-> r.m]
\* Do the views agree with the state? v: [c: for every sentence, for every word its mentions, ce: and entities, ms: mentions of entities,
\* all: mentions of the document, sp: spans of mentions]
Views(st, v, ords) ==
    Must(\A s \in 1..Len(v.c) : \A p \in 1..Len(v.c[s]) : NoDup(v.c[s][p]) /\ SetOf(v.c[s][p]) = At(st, s, p), "words:mentions")
    \cup Must(\A s \in 1..Len(v.ce) : \A p \in 1..Len(v.ce[s]) : SetOf(v.ce[s][p]) = {st.m[k].e : k \in At(st, s, p)}, "words:entities")
    \cup Must(\A i \in 1..Len(v.ms) : NoDup(v.ms[i]) /\ SetOf(v.ms[i]) = Of(st, i), "entity:mentions")
    \cup Must(NoDup(v.all) /\ SetOf(v.all) = Alive(st), "document:mentions")
    \cup Must(SetOf(v.all) # Alive(st) \/ SortedKeys(st, v.all), "document:order")
    \cup Must(\A k \in Alive(st) : v.sp[k] = SpanStr(ords[st.m[k].s], st.m[k].w), "mention:span")
    \cup Must(v.ids = [i \in 1..Len(st.e) |-> st.e[i].id], "document:entities")
\* A mention gets its place in the order of mentions of its new words and of its new entity, if the others are in order
Placed(pre, w, r) ==
    LET m == IF r.do.op = "men" THEN Len(w.m) ELSE r.do.m s == w.m[m].s
        old == IF r.do.op = "men" THEN {w.m[m].h} ELSE SetOf(pre.m[m].w)
        new == SetOf(w.m[m].w) \ old
    IN IF r.do.op = "move" THEN Must(~SortedKeys(pre, r.v0.ms[r.do.e]) \/ SortedKeys(w, r.v.ms[r.do.e]), "move:order")
       ELSE Must(\A p \in new : ~SortedKeys(pre, r.v0.c[s][p]) \/ SortedKeys(w, r.v.c[s][p]), r.do.op \o ":place")
Step(r) ==
    LET want == Apply(State(r.pre), r.do, r.ords) ref == "refused" \in DOMAIN want
        post == State(r.post) w == IF ref THEN State(r.pre) ELSE want
    IN Must(ref = (r.x # ""), r.do.op \o (IF ref THEN ":accepted" ELSE ":raised"))
       \cup (IF ref # (r.x # "") THEN {}
             ELSE Must(post.e = w.e, r.do.op \o ":entities")
                  \cup (IF Len(post.m) # Len(w.m) THEN {r.do.op \o ":mentions"} ELSE
                        Must(\A k \in 1..Len(w.m) : w.m[k].e = post.m[k].e, r.do.op \o ":entity")
                        \cup Must(\A k \in 1..Len(w.m) : w.m[k].s = post.m[k].s /\ w.m[k].w = post.m[k].w, r.do.op \o ":words")
                        \cup Must(\A k \in 1..Len(w.m) : w.m[k].h = post.m[k].h, r.do.op \o ":head")
                        \cup Must(\A k \in 1..Len(w.m) : w.m[k].o = post.m[k].o, r.do.op \o ":other")
                        \cup Must(\A k \in 1..Len(w.m) : w.m[k].b = post.m[k].b, r.do.op \o ":bridging")
                        \cup (IF w = post THEN Views(w, r.v, r.ords) ELSE {})
                        \cup (IF w = post /\ r.x = "" /\ r.do.op \in {"men", "words", "span", "move"} /\ Views(w, r.v, r.ords) = {} THEN Placed(State(r.pre), w, r) ELSE {})
                        \cup Must(r.x # "" \/ r.do.op # "men" \/ ~(w = post) \/ SortedKeys(w, r.v.ms[r.do.e]), "men:order"))
                  \cup Must(r.do.op # "select" \/ r.got = Selected(w, r.do.m, SetOf(r.do.R)), "select:targets"))

(**************************** storing, loading (K02) *************************)
\* r: [n: numbers of words, f: fields, docs: prefixes of IDs for sentences, grp: are they left out in the annotation]
Plain(r, d) == LET strip(id) == IF ~r.grp THEN id ELSE Split1(id, ".")[2] IN
               [i \in 1..Len(d) |-> [d[i] EXCEPT !.id = strip(@), !.sa = [j \in 1..Len(@) |-> strip(@[j])],
                                                 !.ms = [j \in 1..Len(@) |-> [@[j] EXCEPT !.b = [z \in 1..Len(@) |-> [@[z] EXCEPT !.t = strip(@)]]]]]]
\* The same pieces of text in any order
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in SetOf(a) \cup SetOf(b) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
List(t) == IF t = "" THEN <<>> ELSE Split(t, ",")
\* Opening, closing and single brackets of a word: groups of ties in their order
Groups(q, Same(_, _), txt(_)) == LET g == FoldLeft(LAMBDA a, x : IF a # <<>> /\ Same(Last(Last(a)), x) THEN [a EXCEPT ![Len(a)] = Append(@, x)] ELSE Append(a, <<x>>), <<>>, q)
                                 IN [i \in 1..Len(g) |-> [j \in 1..Len(g[i]) |-> txt(g[i][j])]]
WordGroups(P, s, p) ==
    LET here == SelectSeq(P, LAMBDA x : x.s = s)
        closes == Reverse(SelectSeq(here, LAMBDA x : Last(x.w) = p /\ Len(x.w) > 1))
        opens == SelectSeq(here, LAMBDA x : x.w[1] = p /\ Len(x.w) > 1)
        single == SelectSeq(here, LAMBDA x : x.w = <<p>>)
        c == Groups(closes, LAMBDA x, y : x.w = y.w, LAMBDA x : x.id \o ")")
        o == Groups(opens, LAMBDA x, y : x.w = y.w, LAMBDA x : x.x)
        z == Groups(single, LAMBDA x, y : TRUE, LAMBDA x : x.x \o ")")
    IN IF opens # <<>> THEN c \o o \o z ELSE z \o c
RECURSIVE Fits(_, _)
Fits(q, g) == IF g = <<>> THEN q = <<>>
              ELSE Len(q) >= Len(g[1]) /\ SameBag(SubSeq(q, 1, Len(g[1])), g[1]) /\ Fits(SubSeq(q, Len(g[1]) + 1, Len(q)), Tail(g))
Stored(r, d, a) ==
    LET c == Plain(r, Cleaned(d)) P == AllPieces(c, r.f)
        W == {<<s, p>> : s \in 1..Len(r.n), p \in 1..Max({r.n[i] : i \in 1..Len(r.n)})}
        at(x) == x[2] <= r.n[x[1]]
    IN Must(\A x \in W : at(x) => SameBag(Chunks(a[x[1]][x[2]].e), FlattenSeq(WordGroups(P, x[1], x[2]))), "store:brackets")
       \cup Must(\A x \in W : at(x) => (Fits(Chunks(a[x[1]][x[2]].e), WordGroups(P, x[1], x[2]))
                                         \/ ~SameBag(Chunks(a[x[1]][x[2]].e), FlattenSeq(WordGroups(P, x[1], x[2])))), "store:order")
       \cup Must(\A x \in W : at(x) => SameBag(List(a[x[1]][x[2]].b), List(BridgeOf(c, P, x[1], x[2]))), "store:bridging")
       \cup Must(\A x \in W : at(x) => SameBag(List(a[x[1]][x[2]].s), List(SplitOf(c, x[1], x[2]))), "store:antecedents")
Shape(d) == [i \in 1..Len(d) |-> [id |-> d[i].id, ms |-> [j \in 1..Len(d[i].ms) |-> <<d[i].ms[j].s, d[i].ms[j].w>>]]]
\* Are entities d as they should be?
SameDoc(op, want, got) ==
    IF Shape(want) # Shape(got) THEN {op \o ":mentions"}
    ELSE LET I == {<<i, j>> : i \in 1..Len(want), j \in 1..Max({0} \cup {Len(want[z].ms) : z \in 1..Len(want)})}
             all(T(_, _)) == \A x \in I : x[2] > Len(want[x[1]].ms) \/ T(want[x[1]].ms[x[2]], got[x[1]].ms[x[2]])
         IN Must(\A i \in 1..Len(want) : want[i].ty = got[i].ty, op \o ":types")
            \cup Must(\A i \in 1..Len(want) : want[i].sa = got[i].sa, op \o ":antecedents")
            \cup Must(all(LAMBDA m, n : m.h = n.h), op \o ":heads")
            \cup Must(all(LAMBDA m, n : m.o = n.o), op \o ":other")
            \cup Must(all(LAMBDA m, n : m.b = n.b), op \o ":bridging")
\* Mentions of words: pairs of an entity and the place of a mention in it
WordViews(op, d, c) ==
    LET at(s, p) == {<<i, j>> : i \in 1..Len(d), j \in 1..Max({0} \cup {Len(d[z].ms) : z \in 1..Len(d)})}
        has(s, p, x) == x[2] <= Len(d[x[1]].ms) /\ d[x[1]].ms[x[2]].s = s /\ p \in SetOf(d[x[1]].ms[x[2]].w)
    IN Must(\A s \in 1..Len(c) : \A p \in 1..Len(c[s]) : NoDup(c[s][p]) /\ SetOf(c[s][p]) = {x \in at(s, p) : has(s, p, x)}, op \o ":words")
       \cup Must(\A s \in 1..Len(c) : \A p \in 1..Len(c[s]) : \A i, j \in 1..Len(c[s][p]) : i < j =>
                    LET x == c[s][p][i] y == c[s][p][j] IN ~Before(d[y[1]].ms[y[2]], d[y[1]].id, d[x[1]].ms[x[2]], d[x[1]].id), op \o ":order")
Reloaded(r, d) ==
    LET c == Cleaned(d) IN
    IF ~Storable(c) \/ r.back.x = "none" THEN {}
    ELSE IF r.back.x # "" THEN {"reload:raised"}
    ELSE SameDoc("reload", Norm(Kept(c, r.f)), r.back.d)
Store2(r) == IF r.x # "" THEN {"store:raised"} ELSE Stored(r, r.d, r.a) \cup Reloaded(r, r.d)
             \cup Must(r.heads = (IF r.d = <<>> THEN 0 ELSE 1), "store:header")
Load2(r) ==
    LET want == IF r.head THEN Load(r.a0, r.f, r.docs) ELSE [err |-> IF \E s \in 1..Len(r.a0) : \E p \in 1..Len(r.a0[s]) : r.a0[s][p].e # "" THEN "header" ELSE "", d |-> <<>>]
    IN IF (want.err = "") # (r.lx = "") THEN {IF want.err = "" THEN "load:raised" ELSE "load:accepted"}
       ELSE IF r.lx # "" THEN {}
       \* pieces of a mention which overlap: nothing is promised
       ELSE IF \E e \in SetOf(want.d) : \E m \in SetOf(e.ms) : ~NoDup(m.w) THEN {}
       ELSE LET bad == SameDoc("load", want.d, r.d) IN
            bad \cup (IF bad = {} THEN WordViews("load", r.d, r.c) ELSE {})
            \cup (IF r.x # "" THEN {"store:raised"} ELSE Stored(r, r.d, r.a) \cup Reloaded(r, r.d))
Hist(r) == CASE r.op = "step" -> Step(r) [] r.op = "store" -> Store2(r) [] r.op = "load" -> Load2(r)
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
