---------------------------- MODULE Trace_UdTree ----------------------------
(* Conformance of the real trees with UdTree: every record of the log holds   *)
(* one call of the public API with its arguments, its outcome and the state   *)
(* of all trees as read back through the public API afterwards.               *)
EXTENDS UdTree, TraceLib

VARIABLES l, st   \* st = [base, cur: forests (sequences of trees), ok: usable?]

(*************************** what was observed *****************************)
\* o.w word ids, o.o ords, o.p parents, o.c children of <root, each word>, o.own "does the word's root is this tree",
\* o.e <<id, major, minor>>, o.d heads <<major, minor, rel>> of each word then each empty node,
\* o.m <<words, sa, form>>, o.wm the token index of each word, o.s words with SpaceAfter=No
Idx(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Nodup(s) == Cardinality(Range1(s)) = Len(s)
Eids(o) == [k \in 1..Len(o.e) |-> o.e[k][1]]
Sound(o) == /\ Nodup(o.w) /\ Nodup(Eids(o)) /\ Range1(o.w) \cap Range1(Eids(o)) = {}
            /\ Len(o.p) = Len(o.w) /\ Len(o.d) = Len(o.w) + Len(o.e)
            /\ \A k \in 1..Len(o.w) : o.w[k] > 0
            /\ \A k \in 1..Len(o.e) : o.e[k][1] > 0
Head2Id(o, a, b) ==
    IF b = 0 THEN (IF a = 0 THEN 0 ELSE IF a \in 1..Len(o.w) THEN o.w[a] ELSE -1)
    ELSE IF \E k \in 1..Len(o.e) : o.e[k][2] = a /\ o.e[k][3] = b
         THEN o.e[CHOOSE k \in 1..Len(o.e) : o.e[k][2] = a /\ o.e[k][3] = b][1] ELSE -1
Abs(o) == [w |-> o.w,
           p |-> [x \in Range1(o.w) |-> o.p[Idx(o.w, x)]],
           e |-> [k \in 1..Len(o.e) |-> [i |-> o.e[k][1], a |-> o.e[k][2], b |-> o.e[k][3]]],
           m |-> {[ws |-> Range1(o.m[k][1]), sa |-> o.m[k][2], f |-> o.m[k][3]] : k \in 1..Len(o.m)},
           s |-> Range1(o.s),
           d |-> [x \in Range1(o.w) \cup Range1(Eids(o)) |->
                    LET r == o.d[IF x \in Range1(o.w) THEN Idx(o.w, x) ELSE Len(o.w) + Idx(Eids(o), x)]
                    IN [k \in 1..Len(r) |-> [h |-> Head2Id(o, r[k][1], r[k][2]), r |-> r[k][3]]]]]

(**************************** state invariants *****************************)
WfTree(o) ==
    Must(\A k \in 1..Len(o.w) : o.o[k] = k, "wf:ord")
    \cup Must(Nodup(o.w), "wf:listed-once")
    \cup Must(\A k \in 1..Len(o.own) : o.own[k], "wf:root")
    \cup (IF ~Sound(o) THEN {"wf:sound"} ELSE
          LET t == Abs(o) IN
          Must(\A x \in Words(t) : t.p[x] \in Words(t) \cup {0}, "wf:parent")
          \cup Must(Acyclic(t), "wf:acyclic")
          \cup Must(o.c[1] = Children(t, 0) /\ \A k \in 1..Len(o.w) : o.c[k+1] = Children(t, o.w[k]), "wf:children")
          \cup Must(EmptiesOK(t), "wf-e:order")
          \cup Must(MwtOK(t), "wf-m:disjoint")
          \cup Must(\A k \in 1..Len(o.w) :
                       o.wm[k] = (IF \E j \in 1..Len(o.m) : o.w[k] \in Range1(o.m[j][1])
                                  THEN CHOOSE j \in 1..Len(o.m) : o.w[k] \in Range1(o.m[j][1]) ELSE 0), "wf-m:mutual")
          \cup Must(DepsOK(t), "wf-d:heads"))
Wf(f) == UNION {WfTree(f[k]) : k \in 1..Len(f)}
         \cup Must(\A j, k \in 1..Len(f) : j # k => Range1(f[j].w) \cap Range1(f[k].w) = {}, "wf:disjoint")
AllSound(f) == \A k \in 1..Len(f) : Sound(f[k]) /\ Acyclic(Abs(f[k])) /\ MwtOK(Abs(f[k]))
                    /\ \A x \in Range1(f[k].p) : x = 0 \/ x \in Range1(f[k].w)
AbsF(f) == [k \in 1..Len(f) |-> Abs(f[k])]

(******************************* comparisons *******************************)
Ids(e) == [k \in 1..Len(e) |-> e[k].i]
\* Minors of the empty nodes that share one place and came from one place stay what they were.
MinorsKept(old, new) == \A k \in 1..Len(new) :
    LET here == {j \in 1..Len(new) : new[j].a = new[k].a}
        from(j) == old[CHOOSE i \in 1..Len(old) : old[i].i = new[j].i]
    IN (\A j \in here : from(j).a = from(k).a) => new[k].b = from(k).b
DiffE(op, exp, got) == Must(Anchors(exp.e) = Anchors(got.e), op \o ":e")
DiffRest(op, exp, got) ==
    Must(exp.w = got.w, op \o ":w")
    \cup Must(DOMAIN exp.p = DOMAIN got.p /\ (exp.w = got.w => exp.p = got.p), op \o ":p")
    \cup Must(exp.m = got.m, op \o ":m")
    \cup Must(exp.s = got.s, op \o ":s")
    \cup Must(exp.d = got.d, op \o ":d")
Diff(op, exp, got) == DiffRest(op, exp, got) \cup Must(exp.e = got.e, op \o ":e")
\* reordering and removal: places and order of the empty nodes are fixed, minors only where nothing merged
DiffMove(op, old, exp, got) == DiffRest(op, exp, got) \cup DiffE(op, exp, got)
    \cup Must(Anchors(exp.e) = Anchors(got.e) => MinorsKept(old.e, got.e), op \o ":e-minor")
Frame(op, f, g, except) == Must(Len(f) = Len(g) /\ \A k \in 1..Len(f) : k \notin except => f[k] = g[k], op \o ":frame")

\* The outcome of a call: raised or not.
Raised(r) == r.x # ""
Refusal(op, r, f, g) == Must(Raised(r), "refused:" \o op \o ":accepted") \cup Must(f = g, "refused:" \o op \o ":state")
\* A legal call: it must not raise, and then the state must be the specified one.
Legal(op, r, diff) == IF Raised(r) THEN {op \o ":raised"} ELSE diff

(********************************* queries *********************************)
Str(b) == IF b THEN "T" ELSE "F"
Filter(t, n, s, self, prec, foll) ==
    LET all == IF self THEN SelectSeq(<<0>> \o t.w, LAMBDA x : x = n \/ x \in Range1(s)) ELSE s
    IN IF prec THEN SelectSeq(all, LAMBDA x : Pos(t, x) <= Pos(t, n))
       ELSE IF foll THEN SelectSeq(all, LAMBDA x : Pos(t, x) >= Pos(t, n))
       ELSE all
SortedDesc(t, n) == SelectSeq(t.w, LAMBDA x : x \in Desc(t, n))
Siblings(t, n) == SelectSeq(Children(t, t.p[n]), LAMBDA x : x # n)
At(t, k) == IF k = 0 THEN 0 ELSE IF k \in 1..Len(t.w) THEN t.w[k] ELSE -3
OrdStr(t, x) == ToString(Pos(t, x))
Dir(t, n) == IF t.p[n] = 0 THEN "root" ELSE IF Pos(t, n) < Pos(t, t.p[n]) THEN "left" ELSE "right"
Edge(t, n) == IF t.p[n] = 0 THEN 0 ELSE Pos(t, n) - Pos(t, t.p[n])
Interleaved(t) == LET at(k) == SelectSeq(t.e, LAMBDA x : x.a = k) IN
    FoldLeft(LAMBDA acc, k : acc \o (IF k = 0 THEN <<>> ELSE <<t.w[k]>>) \o Ids(at(k)), <<>>, [k \in 1..Len(t.w)+1 |-> k-1])
Answer(t, q) ==
    LET n == q.n IN
    CASE q.q = "children" -> Filter(t, n, Children(t, n), q.self, q.prec, q.foll)
      [] q.q = "descendants" -> Filter(t, n, SortedDesc(t, n), q.self, q.prec, q.foll)
      [] q.q = "siblings" -> Filter(t, n, Siblings(t, n), q.self, q.prec, q.foll)
      [] q.q = "isdesc" -> n # 0 /\ q.b \in Anc(t, n)
      [] q.q = "leaf" -> Len(Children(t, n)) = 0
      [] q.q = "prev" -> IF n = 0 THEN -3 ELSE At(t, Pos(t, n) - 1)
      [] q.q = "next" -> At(t, Pos(t, n) + 1)
      [] q.q \in {"precedes", "lt"} -> Pos(t, n) < Pos(t, q.b)
      [] q.q = "nonproj" -> n # 0 /\ NonProj(t, n)
      [] q.q = "gap" -> n # 0 /\ NonProjGap(t, n)
      [] q.q = "dir" -> <<Dir(t, n)>>
      [] q.q = "edge" -> <<ToString(Edge(t, n))>>
      [] q.q = "nchildren" -> <<ToString(Len(Children(t, n)))>>
      [] q.q = "nsiblings" -> <<ToString(Len(Siblings(t, n)))>>
      [] q.q = "depth" -> <<ToString(Depth(t, n))>>
      [] q.q = "p_ord" -> <<OrdStr(t, t.p[n])>>
      [] q.q = "l_ord" -> <<OrdStr(t, At(t, Pos(t, n) - 1))>>
      [] q.q = "r_ord" -> IF Pos(t, n) = Len(t.w) THEN <<>> ELSE <<OrdStr(t, At(t, Pos(t, n) + 1))>>
      [] q.q = "c_ord" -> [k \in 1..Len(Children(t, n)) |-> OrdStr(t, Children(t, n)[k])]
      [] q.q = "interleaved" -> Interleaved(t)
      [] q.q = "nodes" -> t.w
SetAnswer(t, q) ==
    CASE q.q = "treelet" -> LET X == Range1(q.b) IN <<NearestCommon(t, X), TreeletAdded(t, X)>>
      [] q.q = "unordered" -> Desc(t, q.n)
      [] q.q = "tokens" -> [k \in 1..Len(Tokens(t)) |-> Tokens(t)[k]]
      [] q.q = "range" -> LET m == CHOOSE m \in MwtOf(t, q.n) : TRUE IN <<FirstPos(t, m.ws), LastPos(t, m.ws)>>
Right(t, q) ==
    CASE q.q = "treelet" -> /\ q.r[1] = SetAnswer(t, q)[1]
                            /\ Nodup(q.r[2]) /\ Range1(q.r[2]) = SetAnswer(t, q)[2]
      [] q.q = "unordered" -> Nodup(q.r) /\ Range1(q.r) = SetAnswer(t, q)
      [] q.q = "tokens" -> [k \in 1..Len(q.r) |-> <<q.r[k][1], Range1(q.r[k][2])>>] = SetAnswer(t, q)
      [] q.q = "range" -> q.r = SetAnswer(t, q)
      [] OTHER -> q.r = Answer(t, q)

(********************************* one step ********************************)
StepVerdict(f, r) ==
    LET g == AbsF(r.f)
        a == r.a
        k == a.t
        t == f[k]
        u == g[k]
        only == Frame(r.op, f, g, {k})
    IN
    CASE r.op = "create" -> Legal("create", r, Diff("create", CreateChild(t, a.n, a.id), u) \cup only)
      [] r.op = "parent" ->
            IF a.n = 0 \/ a.n \in Empties(t) \/ ParentRefused(t, a.n, a.q)
            THEN IF a.n \in Words(t) /\ a.q = t.p[a.n] THEN Legal("parent", r, Must(f = g, "parent:state"))
                 ELSE Refusal("parent", r, f, g)
            ELSE Legal("parent", r, Diff("parent", SetParent(t, a.n, a.q), u) \cup only)
      [] r.op = "shift" ->
            IF a.n # 0 /\ ShiftNoop(t, a.n, a.kind, a.ref, a.alone, a.skip) /\ ~(a.kind \in {"bn", "bs"} /\ a.ref = 0)
            THEN Legal("shift", r, Must(f = g, "shift:skip"))
            ELSE IF ShiftRefused(t, a.n, a.kind, a.ref, a.alone, a.skip) THEN Refusal("shift", r, f, g)
            ELSE Legal("shift", r, DiffMove("shift", t, Shift(t, a.n, a.kind, a.ref, a.alone), u) \cup only)
      [] r.op = "remove" ->
            LET mode == IF a.mode \in {"rehang", "rehang_warn"} THEN "rehang" ELSE "all" IN
            Legal("remove", r, DiffMove("remove", t, RemoveWord(t, a.n, mode), u) \cup only)
      [] r.op = "flatten" -> Legal("flatten", r, Diff("flatten", Flatten(t), u) \cup only
                                                 \cup Must(\A j \in 1..Len(r.r) : r.r[j] = a.rel, "flatten:deprel"))
      [] r.op = "mkempty" -> Legal("mkempty", r, Diff("mkempty", CreateEmpty(t, a.n, a.after, a.rel, a.id), u) \cup only)
      [] r.op = "rmempty" -> Legal("rmempty", r,
            LET x == EmptyById(t, a.n)
                same == {j \in 1..Len(t.e) : t.e[j].a = x.a}
                dense == {t.e[j].b : j \in same} = 1..Cardinality(same)
                exp == RemoveEmpty(t, a.n)
            IN DiffRest("rmempty", exp, u) \cup DiffE("rmempty", exp, u) \cup only
               \cup Must(dense => exp.e = u.e, "rmempty:e-minor"))
      [] r.op = "mwt" -> Legal("mwt", r, Diff("mwt", CreateMwt(t, Range1(a.ws), a.form), u) \cup only)
      [] r.op = "rmmwt" -> Legal("rmmwt", r, Diff("rmmwt", RemoveMwt(t, a.n), u) \cup only)
      [] r.op = "nospace" -> Legal("nospace", r, Diff("nospace",
                                [t EXCEPT !.s = IF a.v THEN @ \cup {a.n} ELSE @ \ {a.n}], u) \cup only)
      [] r.op \in {"setdeps", "setraw"} -> Legal(r.op, r, Diff(r.op, [t EXCEPT !.d[a.n] =
                                [j \in 1..Len(a.deps) |-> [h |-> a.deps[j][1], r |-> a.deps[j][2]]]], u) \cup only)
      [] r.op = "readdeps" -> Legal("readdeps", r, Must(f = g, "readdeps:state")
                                \cup Must(r.r = [j \in 1..Len(t.d[a.n]) |-> <<t.d[a.n][j].h, t.d[a.n][j].r>>], "readdeps:d"))
      [] r.op = "steal" ->
            LET S == Range1(a.ws)
                src == f[a.src]
                e1 == StealTarget(src, t, S)
                e2 == StealSource(src, S)
                v == g[a.src]
                wsum(m) == {x.ws : x \in m}
            IN IF ~(S \subseteq Words(src)) THEN Refusal("steal", r, f, g)
               ELSE Legal("steal", r,
                   Must(u.w = e1.w /\ v.w = e2.w, "steal:w")
                   \cup Must(u.w = e1.w /\ v.w = e2.w => u.p = e1.p /\ v.p = e2.p, "steal:p")
                   \cup Must(t.m \cup StealWholeMwt(src, S) \subseteq u.m, "steal:m")
                   \cup Must(StealStayMwt(src, S) \subseteq v.m /\ v.m \subseteq src.m, "steal:m")
                   \cup Must(\A x \in u.m \ t.m : \E y \in src.m : x.ws = y.ws \cap S, "steal:m")
                   \cup Frame("steal", f, g, {k, a.src}))
      [] r.op = "queries" -> Must(f = g, "query:pure")
                             \cup UNION {Must(Right(t, r.qs[j]), "query:" \o r.qs[j].q) : j \in 1..Len(r.qs)}

Verdict(s, r) ==
    IF r.k = "hang" THEN {"did-not-return"}
    ELSE LET wf == Wf(r.f) IN
         IF r.k = "init" \/ ~s.ok THEN wf
         ELSE IF ~AllSound(r.f) THEN wf \cup {r.op \o ":unsound"}
         ELSE wf \cup StepVerdict(IF r.k = "fork" THEN s.base ELSE s.cur, r)

NextSt(s, r) ==
    IF r.k = "hang" THEN [base |-> <<>>, cur |-> <<>>, ok |-> FALSE]
    ELSE LET ok == AllSound(r.f) IN
         IF r.k = "fork" THEN s
         ELSE LET f == IF ok THEN AbsF(r.f) ELSE <<>> IN
              [base |-> IF r.k = "init" THEN f ELSE s.base, cur |-> f,
               ok |-> IF r.k = "init" THEN ok ELSE s.ok /\ ok]

TInit == l = Start /\ st = [base |-> <<>>, cur |-> <<>>, ok |-> FALSE]
TNext == /\ l <= Len(Log)
         /\ LET r == Log[l]
                v == Verdict(st, r)
            IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ st' = NextSt(st, r) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
