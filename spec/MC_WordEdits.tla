---------------------------- MODULE MC_WordEdits ----------------------------
(* Exhaustive: all sentences of up to N words.                                *)
EXTENDS WordEdits, TLC, Json
CONSTANTS N, Emit
VARIABLES w, tk, done
vars == <<w, tk, done>>

Init == w = <<>> /\ tk = <<>> /\ done = FALSE
\* Add a word, alone, as the first one of a new token or as a next one in the last token
Add == /\ ~done /\ Len(w) < N /\ UNCHANGED done
       /\ \E f \in {"a", "xy", "p_q", "."}, sp \in BOOLEAN, m \in {"", "v"} :
            LET x(t) == [k |-> Len(w) + 1, h |-> 0, d |-> "dep", f |-> f, sp |-> IF t = 0 THEN sp ELSE TRUE, t |-> t, m |-> m] IN
            \/ w' = Append(w, x(0)) /\ UNCHANGED tk
            \/ f \in {"a", "xy"} /\ m = "" /\ w' = Append(w, x(Len(tk) + 1)) /\ \E g \in {"T", "a xy"} : tk' = Append(tk, [f |-> g, sp |-> sp])
            \/ f \in {"a", "xy"} /\ m = "" /\ sp /\ Len(w) > 0 /\ w[Len(w)].t # 0 /\ w' = Append(w, x(w[Len(w)].t)) /\ UNCHANGED tk
\* All trees which can be made from the words by choosing heads are too many: chains and stars
Heads == /\ ~done /\ w # <<>> /\ done' = TRUE /\ UNCHANGED tk
         /\ \/ w' = [i \in 1..Len(w) |-> [w[i] EXCEPT !.h = i - 1]]
            \/ w' = [i \in 1..Len(w) |-> [w[i] EXCEPT !.h = IF i = Len(w) THEN 0 ELSE i + 1]]
            \/ \E r \in 1..Len(w) : w' = [i \in 1..Len(w) |-> [w[i] EXCEPT !.h = IF i = r THEN 0 ELSE r]]
Spec == Init /\ [][Add \/ Heads]_vars

S == [w |-> w, tk |-> tk, tx |-> ""]
Txt(s) == Text(s.w, s.tk)
\* Every word has its head in the sentence (or none), and no word is below itself
RECURSIVE Reaches(_, _, _)
Reaches(v, k, n) == k = 0 \/ (n > 0 /\ Reaches(v, v[Pos(v, k)].h, n - 1))
Tree(v) == /\ \A i \in 1..Len(v) : v[i].h = 0 \/ v[i].h \in Keys(v)
           /\ \A i \in 1..Len(v) : v[i].k # -1 => Reaches(v, v[i].k, Len(v))
\* Words of a token are next to each other
Contiguous(v) == \A i, j \in 1..Len(v) : v[i].t # 0 /\ v[i].t = v[j].t => \A n \in i..j : v[n].t = v[i].t
Opts == [deprel |-> "", default |-> "flat", lemma |-> "form", u |-> [i \in 1..Len(w) |-> "X"], l |-> [i \in 1..Len(w) |-> "l"]]
Solid(t) == FoldLeft(LAMBDA a, i : IF Ch(t, i) \in {" ", "_"} THEN a ELSE a \o Ch(t, i), "", [i \in 1..Len(t) |-> i])
RemoveInv == done => LET r == RemoveMwt(S) IN
    /\ Txt(r) = Txt(S) /\ Tree(r.w) /\ \A i \in 1..Len(r.w) : r.w[i].t = 0
    /\ Len(r.w) = Len(Tokens(w, tk))
JoinInv == done => LET v == JoinTokens(w, 1, "") IN Text(v, tk) = Txt(S) /\ Tree(v) /\ Contiguous(v)
AsMwtInv == done => LET r == JoinAsMwt(S, 1, TRUE) IN Txt(r) = Txt(S) /\ Tree(r.w) /\ Contiguous(r.w) /\ Keys(r.w) = Keys(w)
\* Removing what was joined gives what was there without words after the first ones
FixInv == done => LET r == FixSpace(S) IN Txt(r) = Txt(S) /\ Tree(r.w) /\ Contiguous(r.w) /\ Keys(r.w) = Keys(w)
SplitInv == done => LET r == SplitUnderscores(S, Opts) IN
    /\ Solid(Txt(r)) = Solid(Txt(S)) /\ Tree(r.w)
    /\ \A i \in 1..Len(r.w) : r.w[i].f = "_" \/ ~ContainsStr(r.w[i].f, "_")
AddInv == done => LET r == AddMwts(S, 1) IN
    /\ Txt(r) = Txt(S) /\ Tree(r.w) /\ Contiguous(r.w)
    /\ \A i \in 1..Len(r.w) : r.w[i].f \in {"x", "y"} => r.w[i].t # 0
EmitInv == (Emit /\ done) => PrintT("@@STIM " \o ToJson([w |-> w, tk |-> tk]))
=============================================================================
