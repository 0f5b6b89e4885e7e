----------------------------- MODULE CorefFormats -----------------------------
(* Coreference in other formats: CorefUD 0.1 (attributes of head words), CoNLL- *)
(* 2012 (brackets with numbers) and pages of write.CorefHtml.  Entities are as  *)
(* in Coref, o: ords of the words of every sentence.                            *)
EXTENDS CorefEdit

(******************************** CorefUD 0.1 ********************************)
\* An annotation of a word: [id, sp: span, ty, b: bridging, sa: split antecedents, mm: other attributes], all of them texts
OldEntry(d, e, m, o) ==
    [id |-> e.id, sp |-> SpanStr(o[m.s], m.w), ty |-> e.ty,
     b |-> LET q == SortSeq(m.b, LAMBDA x, y : LinkLess(d, x, y)) IN Join([i \in 1..Len(q) |-> q[i].t \o ":" \o q[i].r], ","),
     sa |-> LET q == SortSeq(e.sa, LAMBDA x, y : EntityBefore(Entry(d, x), Entry(d, y))) IN Join(q, ","),
     mm |-> ReplaceStr(OtherStr(m.o), "%2D", "-")]
\* Every mention is written at its head, by entities and then by mentions
OldAt(d, o, s, p) ==
    LET D == SortEntities(d) IN
    FlattenSeq([i \in 1..Len(D) |-> LET q == SelectSeq(SortMentions(D[i].ms, D[i].id), LAMBDA m : m.s = s /\ m.h = p) IN
                                        [j \in 1..Len(q) |-> OldEntry(d, D[i], q[j], o)]])
OldStore(d, o) == [s \in 1..Len(o) |-> [p \in 1..Len(o[s]) |-> OldAt(d, o, s, p)]]
\* Attributes in MISC: numbers are written if there are more mentions
Attr(k, v, x) == IF v = "" THEN <<>> ELSE <<k \o x \o "=" \o v>>
OldMisc(q) == FlattenSeq([i \in 1..Len(q) |-> LET x == IF Len(q) = 1 THEN "" ELSE "[" \o Num(i) \o "]" IN
                 Attr("ClusterId", q[i].id, x) \o Attr("MentionSpan", q[i].sp, x) \o Attr("ClusterType", q[i].ty, x) \o Attr("Bridging", q[i].b, x)
                 \o Attr("SplitAnte", q[i].sa, x) \o Attr("MentionMisc", q[i].mm, x)])

\* IDs without hyphens; a number is added to those which are already used.  M: pairs <<old, new>>
RECURSIVE Numbered(_, _, _)
Numbered(used, id, n) == LET x == IF n = 1 THEN id ELSE id \o Num(n) IN IF x \in used THEN Numbered(used, id, n + 1) ELSE x
NewOf(M, id) == LET z == CHOOSE x \in SetOf(M) : x[1] = id IN z[2]
Known4(M, id) == \E x \in SetOf(M) : x[1] = id
Learn(M, id, h) == IF Known4(M, id) THEN M ELSE Append(M, <<id, Numbered({x[2] : x \in SetOf(M)}, ReplaceStr(id, "-", h), 1)>>)
OldOther(t) == LET v == ReplaceStr(ReplaceStr(ReplaceStr(ReplaceStr(t, " ", ","), "-", "%2D"), "(", "%28"), ")", "%29") IN
               ReadOther(<<>>, IF v = "" THEN <<>> ELSE Split(v, ","))
\* Entities in order of appearance; err: no such entity, or a link to itself
RECURSIVE Learned(_, _, _)
Learned(M, q, h) == IF q = <<>> THEN M ELSE Learned(Learn(M, q[1], h), Tail(q), h)
Targets(x) == [i \in 1..Len(x) |-> Split1(x[i], ":")[1]]
Parts(t) == IF t = "" THEN <<>> ELSE Split(ReplaceStr(t, "+", ","), ",")
OldWord(st, s, p, x, o, h) ==
    LET links == IF x.b = "" THEN <<>> ELSE Split(x.b, ",")
        M == Learned(st.M, <<x.id>> \o Targets(links) \o Parts(x.sa), h)
        new(id) == NewOf(M, id)
        known == FoldLeft(LAMBDA a, id : Known2(a, new(id)), st, <<x.id>> \o Targets(links) \o Parts(x.sa))
        i == EIdx(known, new(x.id))
        m == [s |-> s, w |-> IF x.sp = "" THEN <<p>> ELSE InOrder(SpanWords(o[s], x.sp)), h |-> p, o |-> OldOther(x.mm),
              b |-> [j \in 1..Len(links) |-> LET z == Split1(links[j], ":") IN [t |-> new(z[1]), r |-> z[2]]]]
        sa == [j \in 1..Len(Parts(x.sa)) |-> new(Parts(x.sa)[j])]
        own == new(x.id) \in SetOf(sa) \/ \E l \in SetOf(m.b) : l.t = new(x.id)
    IN IF own THEN [st EXCEPT !.err = "own"]
       ELSE [known EXCEPT !.M = M, !.ents[i].ms = Append(@, m), !.ents[i].ty = IF x.ty = "" THEN @ ELSE x.ty, !.ents[i].sa = IF x.sa = "" THEN @ ELSE sa]
\* a: annotations of words; h: what hyphens in IDs are replaced with
OldLoad(a, o, h) ==
    LET words == FlattenSeq([s \in 1..Len(a) |-> FlattenSeq([p \in 1..Len(a[s]) |-> [i \in 1..Len(a[s][p]) |-> <<s, p, i>>]])])
        st == FoldLeft(LAMBDA z, x : IF z.err # "" THEN z ELSE OldWord(z, x[1], x[2], a[x[1]][x[2]][x[3]], o, h), [ents |-> <<>>, M |-> <<>>, err |-> ""], words)
        es == [i \in 1..Len(st.ents) |-> [st.ents[i] EXCEPT !.ms = SortMentions(@, st.ents[i].id)]]
    IN [err |-> IF st.err # "" THEN st.err ELSE IF \E i \in 1..Len(es) : es[i].ms = <<>> THEN "undefined" ELSE "", d |-> SortEntities(es)]

(********************************** CoNLL-2012 *******************************)
\* A document is [n: name, s: sentences], a sentence a sequence of words [f: form, c: the last column]
Brackets(c) == IF c \in {"", "_"} THEN <<>> ELSE LET q == Split(c, "|") IN FlattenSeq([i \in 1..Len(q) |-> Chunks(q[i])])
NumOf(t) == ReplaceStr(ReplaceStr(t, "(", ""), ")", "")
\* open: [n: number, p: word] of brackets; done: mentions [n, w]
ClosedAt(st, p, q) == FoldLeft(LAMBDA z, t : LET I == {i \in 1..Len(z.open) : z.open[i].n = NumOf(t)} IN
                        [open |-> Without(z.open, Max(I)), done |-> Append(z.done, [n |-> NumOf(t), w |-> [j \in 1..(p - z.open[Max(I)].p + 1) |-> z.open[Max(I)].p + j - 1]])], st, q)
OpenedAt(st, p, q) == FoldLeft(LAMBDA z, t : IF EndsWith(t, ")") THEN [z EXCEPT !.done = Append(@, [n |-> NumOf(t), w |-> <<p>>])]
                                             ELSE [z EXCEPT !.open = Append(@, [n |-> NumOf(t), p |-> p])], st, q)
\* The brackets of a sentence; those which close mentions count before those which open them
Found(s) == FoldLeft(LAMBDA st, p : LET q == Brackets(s[p].c) IN
                OpenedAt(ClosedAt(st, p, SelectSeq(q, LAMBDA t : ~StartsWith(t, "("))), p, SelectSeq(q, LAMBDA t : StartsWith(t, "("))),
                [open |-> <<>>, done |-> <<>>], [p \in 1..Len(s) |-> p]).done
\* Entities: numbers of different documents are different
Conll(D) ==
    LET base == [i \in 1..Len(D) |-> FoldLeft(LAMBDA n, j : n + Len(D[j].s), 0, [j \in 1..(i - 1) |-> j])]
        id(i, n) == ReplaceStr(D[i].n, "-", "") \o "_e" \o n
        all == FlattenSeq([i \in 1..Len(D) |-> FlattenSeq([s \in 1..Len(D[i].s) |-> LET q == Found(D[i].s[s]) IN
                    [j \in 1..Len(q) |-> [id |-> id(i, q[j].n), m |-> [s |-> base[i] + s, w |-> q[j].w, h |-> q[j].w[1], o |-> <<>>, b |-> <<>>]]]])])
        ids == SetToSeq({all[i].id : i \in 1..Len(all)})
    IN SortEntities([i \in 1..Len(ids) |-> LET q == SelectSeq(all, LAMBDA x : x.id = ids[i]) IN
                        [id |-> ids[i], ty |-> "", ms |-> SortMentions([j \in 1..Len(q) |-> q[j].m], ids[i]), sa |-> <<>>]])
\* The name of a document as written
DocName(t) == LET a == IF StartsWith(t, "(") /\ EndsWith(t, ");") THEN SubSeq(t, 2, Len(t) - 2)
                       ELSE IF StartsWith(t, "/home/") THEN Last(Split(t, "/")) ELSE t
              IN ReplaceStr(ReplaceStr(a, ".txt", ""), ".xml", "")

(************************************ pages **********************************)
\* What a word is shown in: the mentions it belongs to, each of them once
MentionName(e, j) == e.id \o "e" \o Num(j)
Shown(d, s, p) == {MentionName(d[x[1]], x[2]) : x \in {y \in {<<i, j>> : i \in 1..Len(d), j \in 1..Max({0} \cup {Len(d[i].ms) : i \in 1..Len(d)})} :
                       y[2] <= Len(d[y[1]].ms) /\ d[y[1]].ms[y[2]].s = s /\ p \in SetOf(d[y[1]].ms[y[2]].w)}}
IsHead(d, s, p) == \E e \in SetOf(d) : \E m \in SetOf(e.ms) : m.s = s /\ m.h = p
\* The word which represents an entity: the first proper noun, else the first noun, else the first head; u, le, f: of words
Representative(e, u, le, f) ==
    LET with(x) == SelectSeq(e.ms, LAMBDA m : u[m.s][m.h] = x)
        m == IF with("PROPN") # <<>> THEN with("PROPN")[1] ELSE IF with("NOUN") # <<>> THEN with("NOUN")[1] ELSE e.ms[1]
    IN IF le[m.s][m.h] \in {"", "_"} THEN f[m.s][m.h] ELSE le[m.s][m.h]
\* Elements of a mention in order, by runs of its words: [m, x: label, w: words, flags]
RunsOf(e, j) == LET r == Runs(e.ms[j].w) IN
    [i \in 1..Len(r) |-> [m |-> MentionName(e, j), s |-> e.ms[j].s, w |-> r[i], x |-> IF Len(r) = 1 THEN e.id ELSE e.id \o "[" \o Num(i) \o "/" \o Num(Len(r)) \o "]",
                          first |-> j = 1 /\ i = 1, e |-> e.id, ty |-> IF e.ty = "" THEN "other" ELSE e.ty, one |-> Len(e.ms) = 1, h |-> e.ms[j].h]]
AllRuns(d) == FlattenSeq([i \in 1..Len(d) |-> FlattenSeq([j \in 1..Len(d[i].ms) |-> RunsOf(d[i], j)])])
\* Colours: entities of one type take them in turn
Colour(d, i, n) == Cardinality({k \in 1..(i - 1) : d[k].ty = d[i].ty}) % n

\* A machine which writes the elements of a sentence with properly nested tags: at the end of one which is not the innermost,
\* the inner ones are ended and begin again after the word.  ev: <<"<", run>>, <<"w", p>>, <<">", run>>
Longer(R, a, b) == IF R[a].w[1] # R[b].w[1] THEN R[a].w[1] < R[b].w[1] ELSE IF Len(R[a].w) # Len(R[b].w) THEN Len(R[a].w) > Len(R[b].w) ELSE a < b
Tags(R, n) ==
    LET order == SortSeq([i \in 1..Len(R) |-> i], LAMBDA a, b : Longer(R, a, b))
        word(st, p) ==
            LET here == SelectSeq(order, LAMBDA i : R[i].w[1] = p)
                open == st.open \o here
                ends == {k \in 1..Len(open) : Last(R[open[k]].w) = p}
                low == IF ends = {} THEN Len(open) + 1 ELSE Min(ends)
                again == SelectSeq(SubSeq(open, low, Len(open)), LAMBDA i : Last(R[i].w) # p)
            IN [open |-> SubSeq(open, 1, low - 1) \o again,
                ev |-> st.ev \o [i \in 1..Len(here) |-> <<"<", here[i]>>] \o <<<<"w", p>>>>
                       \o [i \in 1..(Len(open) - low + 1) |-> <<">", open[Len(open) - i + 1]>>] \o [i \in 1..Len(again) |-> <<"<", again[i]>>]]
    IN FoldLeft(word, [open |-> <<>>, ev |-> <<>>], [p \in 1..n |-> p])
\* Elements of run i: it is cut at the ends of those which begin before it and end inside
Cuts(R, i) == {Last(R[j].w) : j \in {k \in 1..Len(R) : R[k].s = R[i].s /\ R[k].w[1] < R[i].w[1] /\ Last(R[k].w) >= R[i].w[1] /\ Last(R[k].w) < Last(R[i].w)}}
CutWords(w, C) == FoldLeft(LAMBDA q, p : IF p = w[1] \/ p - 1 \in C THEN Append(q, <<p>>) ELSE [q EXCEPT ![Len(q)] = Append(@, p)], <<>>, w)
\* What is open at a word when the tags are read one after another; "bad" if they are not nested
ReadTags(ev) == FoldLeft(LAMBDA st, x : IF x[1] = "<" THEN [st EXCEPT !.open = Append(@, x[2])]
                                        ELSE IF x[1] = "w" THEN [st EXCEPT !.in = Append(@, st.open)]
                                        ELSE IF st.open = <<>> \/ Last(st.open) # x[2] THEN [st EXCEPT !.bad = TRUE] ELSE [st EXCEPT !.open = Front(@)],
                         [open |-> <<>>, in |-> <<>>, bad |-> FALSE], ev)
=============================================================================
