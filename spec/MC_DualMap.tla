----------------------------- MODULE MC_DualMap -----------------------------
(* Exhaustive: every sequence of N calls on a small mapping, together with a  *)
(* model of the lazy representation (text / mapping, each possibly absent).   *)
EXTENDS DualMap, Json
CONSTANTS N, Emit
VARIABLES d, lz, h     \* abstract state; lazy state [s, has, m]; the calls so far

C == Conf("misc")
Maps == <<[n \in {} |-> ""], [n \in {"a"} |-> "=1"], [n \in {"B", "a"} |-> IF n = "B" THEN "!" ELSE "=x=y"]>>
Texts == {"_", "", "a=1", "B|a=1", "b=x=y|A", "a=1|a=2"}
Op(o, k, v) == [o |-> o, k |-> k, v |-> v]
Sets == {Op("set", k, v) : k \in {"a", "B"}, v \in {"=1", "!", "="}}
Ops == Sets \cup {Op("del", k, "") : k \in {"a", "B"}} \cup {Op("get", "a", ""), Op("clear", "", ""), Op("text", "", ""), Op("items", "", "")}
       \cup {Op("assign", "", t) : t \in Texts} \cup {Op("assignmap", "", ToString(i)) : i \in 1..3}

\* The lazy representation: s = "?" means "no text", the mapping is parsed on demand.
Load(z) == IF DOMAIN z.m = {} /\ z.s # "?" THEN [z EXCEPT !.m = Parse(C, z.s)] ELSE z
LazySet(z, k, v) == LET y == Load(z) IN
    [s |-> "?", m |-> IF v = Nothing THEN Without(y.m, k) ELSE With(y.m, k, v)]
LazyDel(z, k) == LET y == Load(z) IN IF k \in DOMAIN y.m THEN [s |-> "?", m |-> Without(y.m, k)] ELSE y
LazyText(z) == IF z.s = "?" THEN Serialize(C, z.m) ELSE z.s

ApplyAbs(x, op) == CASE op.o = "set" -> Set(C, x, op.k, op.v)
                     [] op.o = "del" -> Written(x, Without(x.m, op.k))
                     [] op.o = "clear" -> New(C, [n \in {} |-> ""])
                     [] op.o = "assign" -> Assigned(C, op.v)
                     [] op.o = "assignmap" -> New(C, Maps[ToNat(op.v)])
                     [] OTHER -> x
ApplyLazy(z, op) == CASE op.o = "set" -> LazySet(z, op.k, op.v)
                      [] op.o = "del" -> LazyDel(z, op.k)
                      [] op.o = "clear" -> [s |-> C.none, m |-> [n \in {} |-> ""]]
                      [] op.o = "assign" -> [s |-> IF op.v = "" THEN C.none ELSE op.v, m |-> [n \in {} |-> ""]]
                      [] op.o = "text" -> [z EXCEPT !.s = LazyText(z)]
                      [] op.o = "assignmap" -> [s |-> "?", m |-> Maps[ToNat(op.v)]]
                      [] OTHER -> Load(z)

Init == d = New(C, [n \in {} |-> ""]) /\ lz = [s |-> "?", m |-> [n \in {} |-> ""]] /\ h = <<>>
Next == /\ Len(h) < N
        /\ \E op \in Ops : d' = ApplyAbs(d, op) /\ lz' = ApplyLazy(lz, op) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_<<d, lz, h>>

\* The lazy representation always stands for the abstract mapping and shows an acceptable text.
Refines == Load(lz).m = d.m /\ TextOK(C, d, LazyText(lz))
\* What is written can be read back.
RoundTrip == Parse(C, LazyText(lz)) = d.m
EmitInv == (Emit /\ Len(h) = N) => PrintT("@@STIM " \o ToJson([h |-> h]))
=============================================================================
