-------------------------------- MODULE MC_Fill --------------------------------
(* Exhaustive: K tokens of few forms and all texts with spaces anywhere; K words *)
(* with annotations of multiword expressions.                                   *)
EXTENDS Fill, Json
CONSTANTS K, Emit
VARIABLES m, tk, t, a

Forms == {"a", "ab", "Aba"}
Init == m \in {"text", "mwe"} /\ tk = <<>> /\ t = "" /\ a = <<>>
AddToken == m = "text" /\ Len(tk) < K /\ t = "" /\ \E f \in Forms, sp \in BOOLEAN : tk' = Append(tk, [f |-> f, sp |-> sp, n |-> 1]) /\ UNCHANGED <<m, t, a>>
Read == m = "text" /\ Len(tk) = K /\ Len(Letters(t)) < Len(Glued(tk))
        /\ \E gap \in BOOLEAN : t' = t \o (IF gap THEN " " ELSE "") \o Ch(Glued(tk), Len(Letters(t)) + 1) /\ UNCHANGED <<m, tk, a>>
Mark == m = "mwe" /\ Len(a) < K + 1 /\ \E q \in {<<>>, <<[k |-> "1", t |-> ""]>>, <<[k |-> "1", t |-> "A.b"]>>, <<[k |-> "2", t |-> "C"], [k |-> "1", t |-> ""]>>, <<[k |-> "2", t |-> ""]>>} :
          a' = Append(a, q) /\ UNCHANGED <<m, tk, t>>
Next == AddToken \/ Read \/ Mark
Spec == Init /\ [][Next]_<<m, tk, t, a>>

Ready == m = "text" /\ Len(tk) = K /\ Len(Letters(t)) = Len(Glued(tk))
W == [i \in 1..Len(tk) |-> [f |-> tk[i].f, le |-> "l", u |-> "X", x |-> "_", h |-> IF i = Len(tk) THEN 0 ELSE i + 1, dl |-> "dep"]]
\* The new tokens have the text, nothing else is changed, and doing it again changes nothing
TextInv == (Ready /\ Tells(tk, t)) => LET q == GoneTokens(tk, t) w == Gone(tk, t, W, FALSE) IN
    /\ Computed(q) = Trimmed(t)
    /\ Glued(q) = Glued(tk)
    /\ ~Tells(q, Trimmed(t))
    /\ Len(w) = Len(q)
    /\ \A i \in 1..Len(w) : w[i].f = q[i].f /\ w[i].h # i /\ w[i].h \in 0..Len(w) /\ (w[i].dl = "goeswith" => w[i].h < i)
    /\ Cardinality({i \in 1..Len(w) : w[i].h = 0}) = 1
\* Members and types are the same, given at the first word only; a second time changes nothing
MweInv == m = "mwe" => LET b == Normalized(a) IN
    /\ \A k \in {"1", "2"} : Members(b, k) = Members(a, k) /\ TypeOf(b, k) = TypeOf(a, k)
    /\ Normalized(b) = b
    /\ \A h \in [1..Len(a) -> 0..Len(a)] : Len(a) <= 2 => Subtyped(b, h, [i \in 1..Len(a) |-> "dep"]) = Subtyped(a, h, [i \in 1..Len(a) |-> "dep"])
EmitInv == (Emit /\ (Ready \/ (m = "mwe" /\ a # <<>>))) => PrintT("@@STIM " \o ToJson([m |-> m, tk |-> tk, t |-> t, a |-> a]))
=============================================================================
