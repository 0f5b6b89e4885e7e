------------------------------- MODULE MC_Text -------------------------------
(* Exhaustive: all texts of N characters, all sequences of forms with spaces. *)
EXTENDS Text, Json
CONSTANTS N, Emit
VARIABLES mode, d      \* "text": characters; "forms": [f, after]

Init == mode \in {"text", "forms"} /\ d = <<>>
Next == /\ UNCHANGED mode
        /\ IF mode = "text" THEN Len(d) < N /\ \E x \in {"a", "1", ".", "\"", " ", "\t", "\n"} : d' = Append(d, x)
           ELSE Len(d) < N - 1 /\ \E f \in 1..6, s \in {"", " ", "\n\n"} : d' = Append(d, [f |-> f, s |-> s])
Spec == Init /\ [][Next]_<<mode, d>>
\* TLC keeps only ASCII strings when states go to disk: forms are numbers in states
Forms == <<"a", "ab", "\"", "„", "“", ".">>
c == IF mode = "text" THEN d ELSE [i \in 1..Len(d) |-> [f |-> Forms[d[i].f], s |-> d[i].s]]

Str == FoldLeft(LAMBDA a, x : a \o x, "", c)
NoWs(s) == FoldLeft(LAMBDA a, i : IF Ch(s, i) \in Spaces THEN a ELSE a \o Ch(s, i), "", [i \in 1..Len(s) |-> i])
\* Tokens are the text without spaces; with all spaces kept the text can be restored.
Unescape(s) == ReplaceStr(ReplaceStr(ReplaceStr(s, "\\s", " "), "\\t", "\t"), "\\n", "\n")
Restored(q) == FoldLeft(LAMBDA a, t : a \o Unescape(t.b) \o t.f \o (IF t.s = "No" THEN "" ELSE IF t.sa # "" THEN Unescape(t.sa) ELSE " "), "", q)
TokInv == mode = "text" => \A simple \in BOOLEAN :
    /\ NoWs(Str) = FoldLeft(LAMBDA a, t : a \o t.f, "", Tokenize(Str, simple, FALSE))
    /\ NoWs(Str) # "" => Restored(Tokenize(Str, simple, TRUE)) = Str
W == [i \in 1..Len(c) |-> [k |-> i, h |-> i - 1, d |-> "dep", f |-> c[i].f, sp |-> TRUE, t |-> 0, m |-> ""]]
Raw == FoldLeft(LAMBDA a, x : a \o x.f \o x.s, "", c)
S == [w |-> W, tk |-> <<>>, tx |-> Raw]
\* Taking spaces from a text that has the tokens gives tokens with that text.
FromInv == (mode = "forms" /\ c # <<>>) => LET q == FromText(S) IN
    /\ \A i \in 1..(Len(c) - 1) : q[i].sp = (c[i].s # "")
    /\ SetSpaces(S, q).w = [i \in 1..Len(c) |-> [W[i] EXCEPT !.sp = q[i].sp]]
    /\ LET a == AddText(<<S>>, Raw, TRUE)[1] IN a.np /\ a.tx = TokensText(q)
\* Guessed spaces are only taken away
GuessInv == (mode = "forms" /\ c # <<>>) => LET g == Guess([S EXCEPT !.tx = ""], TRUE) IN NoWs(Text(g.w, g.tk)) = NoWs(Raw)
EmitInv == (Emit /\ c # <<>>) => PrintT("@@STIM " \o (IF mode = "text" THEN ToJson([m |-> mode, text |-> Str]) ELSE ToJson([m |-> mode, q |-> c])))
=============================================================================
