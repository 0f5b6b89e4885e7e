-------------------------------- MODULE Coref --------------------------------
(* Coreference: entities and their mentions, and their annotation in MISC.     *)
(* A document has sentences; the words of a sentence (empty nodes included)    *)
(* are numbered by their order.  An entity is [id, ty: type or "", ms: its     *)
(* mentions, sa: IDs of entities it is split into]; a mention is [s: sentence, *)
(* w: its words in order, h: its head, o: other attributes as pairs [k, v] by   *)
(* name (v = "~" if there is only a name), b: bridging links [t: ID, r: name]]. *)
(* The annotation of a word is [e, b, s]: Entity, Bridge, SplitAnte.           *)
EXTENDS Str, SequencesExt, FiniteSetsExt

SetOf(q) == {q[i] : i \in 1..Len(q)}
LessStr(a, b) == a # b /\ LexLeq(Codes(a), Codes(b))

(************************************ order **********************************)
\* Mentions by first word, longer first, then by last word, then by entity
Before(m, mid, n, nid) ==
    IF m.s # n.s THEN m.s < n.s
    ELSE IF m.w[1] # n.w[1] THEN m.w[1] < n.w[1]
    ELSE IF Len(m.w) # Len(n.w) THEN Len(m.w) > Len(n.w)
    ELSE IF Last(m.w) # Last(n.w) THEN Last(m.w) < Last(n.w)
    ELSE LessStr(mid, nid)
SortMentions(q, id) == SortSeq(q, LAMBDA m, n : Before(m, id, n, id))
FirstOf(e) == CHOOSE m \in SetOf(e.ms) : \A n \in SetOf(e.ms) : ~Before(n, e.id, m, e.id)
EntityBefore(d, e) == IF d.ms = <<>> \/ e.ms = <<>> THEN IF d.ms = <<>> /\ e.ms = <<>> THEN LessStr(d.id, e.id) ELSE d.ms = <<>>
                      ELSE Before(FirstOf(d), d.id, FirstOf(e), e.id)
SortEntities(q) == SortSeq(q, EntityBefore)
\* The value of an attribute, "" if there is none
Get(o, k) == LET I == {i \in 1..Len(o) : o[i].k = k} IN IF I = {} THEN "" ELSE o[CHOOSE i \in I : TRUE].v
LowerLess(a, b) == LET x == LowerCodes(a) y == LowerCodes(b) IN x # y /\ LexLeq(x, y)
Put(o, k, v) == LET r == SelectSeq(o, LAMBDA x : x.k # k) IN
                IF v = "" THEN r ELSE SortSeq(Append(r, [k |-> k, v |-> v]), LAMBDA x, y : LowerLess(x.k, y.k))

(*********************************** segments ********************************)
\* Maximal runs of neighbouring numbers
Runs(w) == FoldLeft(LAMBDA q, i : IF q # <<>> /\ Last(Last(q)) = i - 1 THEN [q EXCEPT ![Len(q)] = Append(@, i)] ELSE Append(q, <<i>>), <<>>, w)
PosOf(w, x) == CHOOSE i \in 1..Len(w) : w[i] = x
Num(n) == ToString(n)

(*********************************** storing *********************************)
OtherStr(o) == Join([i \in 1..Len(o) |-> IF o[i].v = "~" THEN o[i].k ELSE o[i].k \o ":" \o o[i].v], ",")
Known == {"eid", "etype", "head", "other", "GRP", "entity"}
Unescape(v) == ReplaceStr(v, "%2C", ",")
\* One value for every field of the header; the trailing empty ones are left out
RECURSIVE Trimmed(_)
Trimmed(q) == IF q # <<>> /\ Last(q) = "" THEN Trimmed(Front(q)) ELSE q
Values(f, id, ty, h, o) ==
    [i \in 1..Len(f) |-> CASE f[i] \in {"eid", "GRP"} -> id
                           [] f[i] \in {"etype", "entity"} -> ty
                           [] f[i] = "head" -> Num(h)
                           [] f[i] = "other" -> OtherStr(SelectSeq(o, LAMBDA x : x.k \notin (SetOf(f) \ Known)))
                           [] f[i] = "identity" -> Get(o, "identity")
                           [] OTHER -> Unescape(Get(o, f[i]))]
\* Pieces: continuous parts of mentions; x: what is written, c: what closes it
Pieces(e, f) ==
    FlattenSeq([i \in 1..Len(e.ms) |->
        LET m == e.ms[i] r == Runs(m.w) IN
        [j \in 1..Len(r) |-> LET id == IF Len(r) = 1 THEN e.id ELSE e.id \o "[" \o Num(j) \o "/" \o Num(Len(r)) \o "]" IN
            [s |-> m.s, w |-> r[j], id |-> id, x |-> "(" \o Join(Trimmed(Values(f, id, e.ty, PosOf(m.w, m.h), m.o)), "-"),
             b |-> IF j = 1 THEN m.b ELSE <<>>, e |-> e.id]]])
AllPieces(d, f) == SortSeq(FlattenSeq([i \in 1..Len(d) |-> Pieces(d[i], f)]), LAMBDA p, q : Before(p, p.id, q, q.id))
\* The annotation of word p of sentence s: closing brackets, the one opened last first, then opening ones; single words are written
\* after the opening brackets if there are any, else before the closing ones.
EntityOf(P, s, p) ==
    LET here == SelectSeq(P, LAMBDA x : x.s = s)
        closes == Reverse(SelectSeq(here, LAMBDA x : Last(x.w) = p /\ Len(x.w) > 1))
        opens == SelectSeq(here, LAMBDA x : x.w[1] = p /\ Len(x.w) > 1)
        single == SelectSeq(here, LAMBDA x : x.w = <<p>>)
        c == FoldLeft(LAMBDA a, x : a \o x.id \o ")", "", closes)
        o == FoldLeft(LAMBDA a, x : a \o x.x, "", opens)
    IN IF opens # <<>> THEN c \o o \o FoldLeft(LAMBDA a, x : a \o x.x \o ")", "", single)
       ELSE FoldLeft(LAMBDA a, x : a \o x.x \o ")", "", Reverse(single)) \o c
Entry(d, id) == LET I == {i \in 1..Len(d) : d[i].id = id} IN IF I = {} THEN [id |-> id, ty |-> "", ms |-> <<>>, sa |-> <<>>] ELSE d[CHOOSE i \in I : TRUE]
LinkLess(d, x, y) == IF x.t = y.t THEN LessStr(x.r, y.r) ELSE EntityBefore(Entry(d, x.t), Entry(d, y.t))
BridgeOf(d, P, s, p) ==
    LET here == SelectSeq(P, LAMBDA x : x.s = s /\ x.w[1] = p /\ x.b # <<>>)
    IN Join(FlattenSeq([i \in 1..Len(here) |-> LET b == SortSeq(here[i].b, LAMBDA x, y : LinkLess(d, x, y)) IN
                [j \in 1..Len(b) |-> b[j].t \o "<" \o here[i].e \o (IF b[j].r = "" THEN "" ELSE ":" \o b[j].r)]]), ",")
SplitOf(d, s, p) ==
    LET here == SelectSeq(d, LAMBDA e : Len(e.sa) > 1 /\ e.ms # <<>> /\ FirstOf(e).s = s /\ FirstOf(e).w[1] = p)
    IN Join(FlattenSeq([i \in 1..Len(here) |-> [j \in 1..Len(here[i].sa) |-> here[i].sa[j] \o "<" \o here[i].id]]), ",")
\* n: numbers of words of the sentences; f: fields of the header
Store(d, n, f) == LET P == AllPieces(d, f) IN
    [s \in 1..Len(n) |-> [p \in 1..n[s] |-> [e |-> EntityOf(P, s, p), b |-> BridgeOf(d, P, s, p), s |-> SplitOf(d, s, p)]]]

\* Entities without mentions, links to them and a single antecedent are not stored
Cleaned(d) ==
    LET alive == {e.id : e \in {x \in SetOf(d) : x.ms # <<>>}}
        cut(q) == SelectSeq(q, LAMBDA t : t \in alive)
        e1 == SelectSeq(d, LAMBDA e : e.ms # <<>>)
    IN [i \in 1..Len(e1) |-> [e1[i] EXCEPT !.sa = IF Len(cut(@)) > 1 THEN cut(@) ELSE <<>>,
                                          !.ms = [j \in 1..Len(@) |-> [@[j] EXCEPT !.b = SelectSeq(@, LAMBDA l : l.t \in alive)]]]]
\* What there is no field for is not stored: types, heads, other attributes
Kept(d, f) ==
    LET F == SetOf(f)
        m1(m) == [m EXCEPT !.h = IF "head" \in F THEN @ ELSE m.w[1], !.o = SelectSeq(@, LAMBDA x : "other" \in F \/ x.k \in F \ Known)]
    IN [i \in 1..Len(d) |-> [d[i] EXCEPT !.ty = IF F \cap {"etype", "entity"} # {} THEN @ ELSE "", !.ms = [j \in 1..Len(@) |-> m1(@[j])]]]

(*********************************** loading *********************************)
\* Brackets of an annotation
RECURSIVE Chunks(_)
Chunks(t) ==
    IF t = "" THEN <<>>
    ELSE LET o == FindFrom(t, "(", 2) c == Find(t, ")")
             end == IF c > 0 /\ (o = 0 \/ c < o) THEN c ELSE IF o > 0 THEN o - 1 ELSE Len(t)
         IN <<Upto(t, end)>> \o Chunks(From(t, end + 1))
\* The parts of an ID: e[2/3]
SubId(id) == IF ~EndsWith(id, "]") \/ Find(id, "[") < 2 THEN [id |-> id, i |-> 0, n |-> 0]
             ELSE LET a == Split1(id, "[") b == Split1(Upto(a[2], Len(a[2]) - 1), "/") IN
                  IF Len(b) = 2 /\ IsNumber(b[1]) /\ IsNumber(b[2]) THEN [id |-> a[1], i |-> ToNat(b[1]), n |-> ToNat(b[2])] ELSE [id |-> id, i |-> 0, n |-> 0]
\* The state of loading: entities in order of appearance with names of mentions, the mentions, open brackets [id, m, h], unfinished discontinuous mentions
Empty == [ents |-> <<>>, men |-> <<>>, open |-> <<>>, disc |-> <<>>, err |-> ""]
EIdx(st, id) == LET I == {i \in 1..Len(st.ents) : st.ents[i].id = id} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Error(st, x) == IF st.err = "" THEN [st EXCEPT !.err = x] ELSE st
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
LastWith(q, id) == LET I == {i \in 1..Len(q) : q[i].id = id} IN IF I = {} THEN 0 ELSE Max(I)
Finished(st, id, m) == LET i == LastWith(st.disc, id) IN
                       IF i = 0 \/ st.disc[i].m # m THEN Error(st, "crossing") ELSE [st EXCEPT !.disc = Without(@, i)]
SetHead(st, m, h) == IF h = 0 THEN st ELSE IF h > Len(st.men[m].w) THEN Error(st, "head") ELSE [st EXCEPT !.men[m].h = st.men[m].w[h]]
Close(st, s, p, doc, t) ==
    LET full == doc \o t
        x == SubId(full) i == LastWith(st.open, x.id) IN
    IF i = 0 THEN Error(st, "not opened")
    ELSE LET o == st.open[i] m == st.men[o.m]
             st1 == [st EXCEPT !.open = Without(@, i)] IN
         IF m.s # s THEN Error(st1, "sentence")
         ELSE LET st2 == [st1 EXCEPT !.men[o.m].w = @ \o [j \in 1..(p - Last(m.w)) |-> Last(m.w) + j]]
                  st3 == IF x.i = x.n THEN SetHead(st2, o.m, o.h) ELSE st2
              IN IF x.n > 0 /\ x.i = x.n THEN Finished(st3, x.id, o.m) ELSE st3
\* Attributes written in one string; a later one of the same name counts
RECURSIVE ReadOther(_, _)
ReadOther(o, q) == IF q = <<>> THEN o
                   ELSE LET x == Split1(q[1], ":") IN ReadOther(IF x = <<"">> THEN o ELSE Put(o, x[1], IF Len(x) = 1 THEN "~" ELSE x[2]), Tail(q))
Escape(v) == FoldLeft(LAMBDA a, i : a \o (IF Ch(v, i) = "," THEN "%2C" ELSE Ch(v, i)), "", [i \in 1..Len(v) |-> i])
\* Fields of the header with values; the named ones count more than those in other
ReadFields(f, v, doc) ==
    FoldLeft(LAMBDA a, i :
        CASE f[i] = "eid" -> [a EXCEPT !.id = v[i]]
          [] f[i] = "GRP" -> [a EXCEPT !.id = doc \o v[i]]
          [] f[i] \in {"etype", "entity"} -> [a EXCEPT !.ty = v[i]]
          [] f[i] = "head" -> IF IsNumber(v[i]) THEN [a EXCEPT !.h = ToNat(v[i])] ELSE [a EXCEPT !.err = "head"]
          [] f[i] = "other" -> [a EXCEPT !.o = FoldLeft(LAMBDA z, x : Put(z, x.k, x.v), ReadOther(<<>>, Split(v[i], ",")), @)]
          [] OTHER -> [a EXCEPT !.o = Put(@, f[i], Escape(v[i]))],
        [id |-> "", ty |-> "", h |-> 0, o |-> <<>>, err |-> ""], [i \in 1..(IF Len(f) < Len(v) THEN Len(f) ELSE Len(v)) |-> i])
Open(st, s, p, doc, f, t, closed) ==
    LET a == ReadFields(f, Split(t, "-"), doc)
        x == SubId(a.id)
        ei == EIdx(st, x.id)
        st1 == IF ei = 0 THEN [st EXCEPT !.ents = Append(@, [id |-> x.id, ty |-> a.ty, ms |-> <<>>, sa |-> <<>>])]
               ELSE IF st.ents[ei].ty = "" THEN [st EXCEPT !.ents[ei].ty = a.ty] ELSE st
        e == EIdx(st1, x.id)
        o == IF a.ty # "" /\ st1.ents[e].ty # a.ty THEN Put(a.o, "orig_etype", Escape(a.ty)) ELSE a.o
        opened == {st1.open[i].m : i \in 1..Len(st1.open)}
        rest == SelectSeq(st1.disc, LAMBDA z : z.id = x.id /\ z.m \notin opened)
        new == Len(st1.men) + 1
        later == x.i > 1
        m == IF later THEN rest[1].m ELSE new
        st2 == IF later THEN [st1 EXCEPT !.men[m].w = Append(@, p)]
               ELSE [st1 EXCEPT !.men = Append(@, [e |-> x.id, s |-> s, w |-> <<p>>, h |-> p, o |-> o, b |-> <<>>]),
                                !.ents[e].ms = Append(@, new), !.disc = IF x.n > 0 THEN Append(@, [id |-> x.id, m |-> new]) ELSE @]
    IN IF a.err # "" THEN Error(st, a.err) ELSE IF a.id = "" THEN Error(st, "no eid")
       ELSE IF later /\ (rest = <<>> \/ ei = 0) THEN Error(st, "not first")
       ELSE IF later /\ st1.men[rest[1].m].s # s THEN Error(st, "sentence")
       ELSE IF ~closed THEN [st2 EXCEPT !.open = Append(@, [id |-> x.id, m |-> m, h |-> a.h])]
       ELSE IF later /\ x.i = x.n THEN Finished(SetHead(st2, m, a.h), x.id, m) ELSE st2
Chunk(st, s, p, doc, f, c) ==
    LET o == StartsWith(c, "(") z == EndsWith(c, ")")
        t == SubSeq(c, IF o THEN 2 ELSE 1, IF z THEN Len(c) - 1 ELSE Len(c))
    IN IF o THEN Open(st, s, p, doc, f, t, z) ELSE IF z THEN Close(st, s, p, doc, t) ELSE st
Known2(st, id) == IF EIdx(st, id) > 0 THEN st ELSE [st EXCEPT !.ents = Append(@, [id |-> id, ty |-> "", ms |-> <<>>, sa |-> <<>>])]
Link(st, doc, t) ==
    LET a == Split(t, "<") IN
    IF Len(a) # 2 THEN Error(st, "link")
    ELSE LET b == Split1(a[2], ":") src == doc \o b[1] trg == doc \o a[1] i == EIdx(st, src) IN
         IF src = trg \/ i = 0 THEN Error(st, "link")
         ELSE IF st.ents[i].ms = <<>> THEN Error(st, "link")
         ELSE LET st1 == Known2(st, trg) IN
              [st1 EXCEPT !.men[Last(st.ents[i].ms)].b = Append(@, [t |-> trg, r |-> IF Len(b) = 1 THEN "" ELSE b[2]])]
Ante(st, doc, t) ==
    LET a == Split(t, "<") src == doc \o a[Len(a)] trg == doc \o a[1] IN
    IF Len(a) # 2 THEN Error(st, "split")
    ELSE LET st1 == Known2(st, trg) i == EIdx(st1, src) IN
         IF src = trg \/ i = 0 THEN Error(st, "split") ELSE [st1 EXCEPT !.ents[i].sa = Append(@, trg)]
\* Links are read at words with brackets only
Word(st, s, p, doc, f, x) ==
    IF x.e = "" THEN st ELSE
    LET st1 == FoldLeft(LAMBDA a, c : IF a.err # "" THEN a ELSE Chunk(a, s, p, doc, f, c), st, Chunks(x.e))
        st2 == FoldLeft(LAMBDA a, t : IF a.err # "" THEN a ELSE Link(a, doc, t), st1, IF x.b = "" THEN <<>> ELSE Split(x.b, ","))
    IN FoldLeft(LAMBDA a, t : IF a.err # "" THEN a ELSE Ante(a, doc, t), st2, IF x.s = "" THEN <<>> ELSE Split(x.s, ","))
\* Mentions which are not closed are deleted, and entities without other ones
Unclosed(st) ==
    LET gone == {st.open[i].m : i \in 1..Len(st.open)} \cup {}
        cut == [i \in 1..Len(st.ents) |-> [st.ents[i] EXCEPT !.ms = SelectSeq(@, LAMBDA m : m \notin gone)]]
        I == SelectSeq([i \in 1..Len(cut) |-> i], LAMBDA i : ~(cut[i].ms = <<>> /\ st.ents[i].ms # <<>>))
    IN [st EXCEPT !.ents = [i \in 1..Len(I) |-> cut[I[i]]]]
\* a: the annotation; f: fields; docs: prefixes of IDs for every sentence.  The result is [d: entities, err]
Load(a, f, docs) ==
    LET words == FlattenSeq([s \in 1..Len(a) |-> [p \in 1..Len(a[s]) |-> <<s, p>>]])
        st == Unclosed(FoldLeft(LAMBDA z, x : IF z.err # "" THEN z ELSE Word(z, x[1], x[2], docs[x[1]], f, a[x[1]][x[2]]), Empty, words))
        m(i) == [s |-> st.men[i].s, w |-> st.men[i].w, h |-> st.men[i].h, o |-> st.men[i].o, b |-> st.men[i].b]
        es == [i \in 1..Len(st.ents) |-> LET e == st.ents[i] IN
                  [e EXCEPT !.ms = SortMentions([j \in 1..Len(e.ms) |-> m(e.ms[j])], e.id)]]
    IN [err |-> IF st.err # "" THEN st.err ELSE IF \E i \in 1..Len(es) : es[i].ms = <<>> THEN "undefined" ELSE "",
        d |-> SortEntities(es)]

(********************************* what can be stored ************************)
\* Two mentions of one entity do not cross, nor have the same words, nor are two discontinuous ones mixed
Crossing(m, n) == m.s = n.s /\ \E p, q \in {m, n} : p.w[1] < q.w[1] /\ q.w[1] < Last(p.w) /\ Last(p.w) < Last(q.w)
PiecesCross(m, n) == m.s = n.s /\ \E p \in SetOf(Runs(m.w)), q \in SetOf(Runs(n.w)) :
                        (p[1] < q[1] /\ q[1] < Last(p) /\ Last(p) < Last(q)) \/ (q[1] < p[1] /\ p[1] < Last(q) /\ Last(q) < Last(p))
SameRun(m, n) == m.s = n.s /\ SetOf(Runs(m.w)) \cap SetOf(Runs(n.w)) # {}
Mixed(m, n) == m.s = n.s /\ Len(Runs(m.w)) > 1 /\ Len(Runs(n.w)) > 1 /\ ~(Last(m.w) < n.w[1] \/ Last(n.w) < m.w[1])
Storable(d) == \A e \in SetOf(d) :
    /\ e.ms # <<>> /\ Len(e.sa) # 1 /\ \A t \in SetOf(e.sa) : t # e.id /\ Entry(d, t).ms # <<>>
    /\ \A i, j \in 1..Len(e.ms) : i < j => LET m == e.ms[i] n == e.ms[j] IN
          /\ ~PiecesCross(m, n) /\ ~SameRun(m, n) /\ ~Mixed(m, n)
          /\ (m.b # <<>> \/ n.b # <<>>) => m.s # n.s \/ m.w[1] # n.w[1]
    /\ \A m \in SetOf(e.ms) : \A l \in SetOf(m.b) : l.t # e.id /\ Entry(d, l.t).ms # <<>>
\* The same entities with sorted links
Norm(d) == SortEntities([i \in 1..Len(d) |-> [d[i] EXCEPT !.ms = SortMentions([j \in 1..Len(@) |-> [@[j] EXCEPT !.b = SortSeq(@, LAMBDA x, y : LinkLess(d, x, y))]], d[i].id)]])
=============================================================================
