---------------------------- MODULE MC_Scenario ----------------------------
(* Exhaustive: token lists, mixtures of readers and other blocks, small       *)
(* documents under all options, paths.                                        *)
EXTENDS Scenario, Json
CONSTANTS N, Emit
VARIABLES mode, q

Toks == {"a.B", "c.D", "x=1", "x=", "y=a=b", "x=010", "=v", "z=-1"}
Trees1 == {[z |-> z, w |-> w, e |-> e, m |-> 0] : z \in {"", "en"}, w \in {0, 2}, e \in {0, 1}}
Bundles1 == {<<>>} \cup {<<t>> : t \in Trees1} \cup {<<s, t>> : s \in {t \in Trees1 : t.z = "" /\ t.e = 0}, t \in {t \in Trees1 : t.z = "en"}}
Files1 == {"f", "f.x", "d/f.x", "d/e/f.x.y"}
Paths1 == {"p", "p/", "p/q", "p/*", "p/*.z", "*.z", "p/g.z*", "*/g.z", "g*", "*"}
Init == mode \in {"parse", "exec", "disp", "out"} /\ q = <<>>
Next == /\ mode' = mode
        /\ CASE mode = "parse" -> Len(q) < N + 1 /\ \E t \in Toks : q' = Append(q, t)
             [] mode = "exec" -> Len(q) < N /\ \E k \in 0..3 : q' = Append(q, k)
             [] mode = "disp" -> Len(q) < 2 /\ \E b \in Bundles1 : q' = Append(q, b)
             [] mode = "out" -> Len(q) < 2 /\ \E x \in IF q = <<>> THEN Files1 ELSE Paths1 : q' = Append(q, x)
Spec == Init /\ [][Next]_<<mode, q>>

ParseInv == mode = "parse" => LET p == Parse(q) IN
    /\ p.bad <=> (q = <<>> \/ ContainsStr(q[1], "="))
    /\ ~p.bad => [i \in 1..Len(p.b) |-> p.b[i].n] = SelectSeq(q, LAMBDA t : ~ContainsStr(t, "="))
    /\ \A i \in 1..Len(p.b) : IsInjective([k \in 1..Len(p.b[i].a) |-> p.b[i].a[k][1]])
ExecInv == mode = "exec" /\ q # <<>> => LET ev == Exec(q) IN
    /\ IsInjective(ev)
    /\ \A i, j \in 1..Len(ev) : i < j => ev[i][1] # "end" \/ ev[j][1] = "end"
    /\ Len(ev) = Len(q) * (2 + 3 * Rounds(q))
Ovs == {ov \in SUBSET {"bundle", "tree", "node", "empty"} : ov # {} /\ ("empty" \in ov => ov \cap {"bundle", "tree"} = {})}
DispOpts == [zones : {"all", "", "en", "cs,en"}, ife : {"process", "skip", "delete", "fail"}, ov : Ovs, sup : BOOLEAN]
DispInv == mode = "disp" => \A o \in DispOpts : LET r == Dispatch(o, q) IN
    /\ IsInjective(r.ev)
    /\ \A i \in 1..Len(r.ev) : r.ev[i][3] > 0 => ZoneOk(o, q[r.ev[i][2]][r.ev[i][3]].z) /\ <<r.ev[i][2], r.ev[i][3]>> \notin ToSet(r.del)
    /\ (o.zones = "all" /\ o.ife = "process" /\ "node" \in o.ov /\ (o.sup \/ o.ov \cap {"tree", "bundle"} = {})) =>
         \A i \in 1..Len(q) : \A j \in 1..Len(q[i]) : \A k \in 1..q[i][j].w : <<"node", i, j, k>> \in ToSet(r.ev)
OutInv == mode = "out" /\ Len(q) = 2 => LET r == Redirect(q[2], q[1]) IN
    /\ (q[2] \in {"p", "p/", "p/*"} => r = "p/" \o FileOf(q[1])) /\ (q[2] = "*" => r = q[1])
    /\ (EndsWith(q[2], "z") => Ext(r) = ".z" \/ ~ContainsStr(q[2], "*"))
EmitInv == (Emit /\ mode \in {"parse", "exec", "disp"} /\ q # <<>>) => PrintT("@@STIM " \o ToJson([m |-> mode, q |-> q]))
=============================================================================
