---------------------------- MODULE MC_FileNames ----------------------------
(* Exhaustive: all arguments of up to N tokens over a fixed set of files.     *)
EXTENDS FileNames, Json
CONSTANTS N, Emit
VARIABLE a

Fs == <<<<"a.txt", "A">>, <<"b.txt", "B">>, <<"a.gz", "Z">>, <<".h", "H">>, <<"d/c.txt", "C">>, <<"d/.i", "I">>, <<"d/e/f.txt", "F">>,
        <<"dd/c.txt", "C2">>, <<"dd/c.xz", "X">>, <<"dd/c.bz2", "Y">>, <<"/R/b.txt", "B">>>>
Lists == <<<<"l", <<"a.txt", "", "d/c.txt", "/R/b.txt">>>>, <<"d/l", <<"c.txt", "  ", "e/f.txt", "/R/b.txt", "c.txt">>>>>>
Stdin == [text |-> "a.txt\nd/e/f.txt\n", lines |-> <<"a.txt", "d/e/f.txt">>]
Toks == {"a.txt", "d/c.txt", "missing", "!*.txt", "!?.txt", "!?/c*", "!d*/c*", "!*/*.txt", "!*/e/f*", "!.?", "!z*", "!a.*", "!d/*.txt", "@l", "@d/l", "@missing"}
Init == a = ""
Next == \E t \in Toks, sep \in {" ", ",", ", "} :
          Len(Tokens(a)) < N /\ a' = IF a = "" THEN t ELSE a \o sep \o t
Spec == Init /\ [][Next]_a
Nm(x) == Names([s |-> x], Fs, Lists, Stdin)
\* Arguments concatenate; a list argument is taken as it is; wildcards give only existing files, in order.
Concat == \A t \in Toks : Len(Tokens(a)) = 1 => Nm(a \o "," \o t) = (IF Nm(a).bad \/ Nm(t).bad THEN Failed ELSE Good(Nm(a).names \o Nm(t).names))
Wild == StartsWith(a, "!") /\ Len(Tokens(a)) = 1 /\ ~Nm(a).bad =>
          /\ ToSet(Nm(a).names) \subseteq Paths(Fs) /\ IsInjective(Nm(a).names)
          /\ \A i \in 1..Len(Nm(a).names) - 1 : LexLeq(Codes(Nm(a).names[i]), Codes(Nm(a).names[i + 1]))
EmitInv == Emit => PrintT("@@STIM " \o ToJson([s |-> a]))
=============================================================================
