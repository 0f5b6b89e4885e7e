--------------------------- MODULE Trace_DualMap ---------------------------
(* One record = one history of calls on two mappings (or on the attributes of *)
(* a node) with everything the calls returned.                                *)
EXTENDS DualMap, TraceLib
VARIABLE l

Cf(kind) == Conf(kind)
PairsMap(pairs) == LET ns == {pairs[i][1] : i \in 1..Len(pairs)} IN
    [n \in ns |-> pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = n][2]]
Esc(kind, v) == IF kind = "other" THEN ReplaceStr(v, ",", "%2C") ELSE v
RECURSIVE Update(_, _, _, _, _)
Update(c, kind, x, pairs, i) == IF i > Len(pairs) THEN x
    ELSE Update(c, kind, Set(c, x, pairs[i][1], Esc(kind, pairs[i][2])), pairs, i + 1)

\* [v: verdict, s: state] of one call; s is a pair of mappings
Call(kind, s, op) ==
    LET c == Cf(kind)
        d == s[op.d]
        R(v, x) == [v |-> v, s |-> [s EXCEPT ![op.d] = x]]
        quiet == Must(op.x = "", "dict:" \o op.o \o ":raised")
        N(name) == "dict:" \o name
    IN
    CASE op.o = "set" -> R(quiet, Set(c, d, op.k, Esc(kind, op.v)))
      [] op.o = "del" -> R(quiet, Written(d, Without(d.m, op.k)))
      [] op.o = "clear" -> R(quiet, New(c, [n \in {} |-> ""]))
      [] op.o = "assign" -> R(quiet, Assigned(c, op.v))
      [] op.o = "assignmap" -> R(quiet, New(c, PairsMap(op.v)))
      [] op.o = "assignbad" -> R(Must(op.x # "", N("assignbad")), d)
      [] op.o = "assignfrom" -> R(quiet, New(c, s[3 - op.d].m))
      [] op.o = "copy" -> R(quiet, s[3 - op.d])
      [] op.o = "update" -> R(quiet, Update(c, kind, d, op.v, 1))
      [] op.o = "pop" -> R(quiet \cup Must(op.x = "" => op.r = Get(d, op.k), N("pop")), Written(d, Without(d.m, op.k)))
      [] op.o = "get" -> R(quiet \cup Must(op.x = "" => op.r = Get(d, op.k), N("get")), d)
      [] op.o = "contains" -> R(quiet \cup Must(op.x = "" => op.r = (op.k \in DOMAIN d.m), N("contains")), d)
      [] op.o = "len" -> R(quiet \cup Must(op.x = "" => op.r = Cardinality(DOMAIN d.m), N("len")), d)
      [] op.o = "items" -> R(quiet \cup Must(op.x = "" => /\ Len(op.r) = Cardinality(DOMAIN d.m)
                                                          /\ {<<op.r[i][1], op.r[i][2]>> : i \in 1..Len(op.r)} = {<<n, d.m[n]>> : n \in DOMAIN d.m}, N("items")), d)
      [] op.o = "eq" -> R(quiet \cup Must(op.x = "" => op.r = (s[1].m = s[2].m), N("eq")), d)
      [] op.o = "text" -> R(quiet \cup Must(op.x = "" => TextOK(c, d, op.r), N("text")), IF op.x = "" THEN TextSeen(d, op.r) ELSE d)
      [] op.o = "split" -> R(quiet \cup Must(op.x = "" => TextOK(c, d, Join(op.r, c.sep)), N("split")), d)

RECURSIVE Run(_, _, _, _)
Run(kind, s, ops, i) == IF i > Len(ops) THEN {}
    ELSE LET z == Call(kind, s, ops[i]) IN IF z.v # {} THEN z.v ELSE Run(kind, z.s, ops, i + 1)

(***** dependency relations: universal part, specific part *****)
U(d) == Split1(d, ":")[1]
S(d) == LET p == Split1(d, ":") IN IF Len(p) = 2 THEN p[2] ELSE ""
DJoin(u, s) == IF s = "" THEN u ELSE u \o ":" \o s
RECURSIVE RunRel(_, _, _)
RunRel(d, ops, i) == IF i > Len(ops) THEN {}
    ELSE LET op == ops[i]
             new == CASE op.o = "deprel" -> op.v
                      [] op.o = "udeprel" -> DJoin(op.v, S(d))
                      [] op.o = "sdeprel" -> DJoin(U(d), op.v)
             v == Must(op.x = "", "rel:" \o op.o \o ":raised")
                  \cup Must(op.x = "" => op.r = <<new, U(new), S(new)>>, "rel:" \o op.o)
         IN IF v # {} THEN v ELSE RunRel(new, ops, i + 1)

Fresh(kind) == New(Cf(kind), [n \in {} |-> ""])
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"}
              ELSE IF r.op = "rel" THEN RunRel("_", r.ops, 1)
              ELSE Run(r.kind, <<Fresh(r.kind), Fresh(r.kind)>>, r.ops, 1)

TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
