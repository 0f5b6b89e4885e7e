-------------------------------- MODULE Str --------------------------------
(* Strings as TLC has them: Len, SubSeq and \o work on them.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
StartsWith(s, p) == Len(p) <= Len(s) /\ Upto(s, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ From(s, Len(s) - Len(p) + 1) = p

\* The first position at or after i where p occurs in s; 0 if there is none.
FindFrom(s, p, i) ==
    LET S == {k \in i..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p}
    IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
Find(s, p) == FindFrom(s, p, 1)
ContainsStr(s, p) == Find(s, p) > 0

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, sep, i) ==
    LET k == FindFrom(s, sep, i) IN
    IF k = 0 THEN <<From(s, i)>>
    ELSE <<SubSeq(s, i, k - 1)>> \o SplitFrom(s, sep, k + Len(sep))
\* All parts between the separators; Split("", x) = <<"">>
Split(s, sep) == SplitFrom(s, sep, 1)
\* Split at the first separator only: <<before>> or <<before, after>>
Split1(s, sep) == LET k == Find(s, sep) IN
    IF k = 0 THEN <<s>> ELSE <<Upto(s, k - 1), From(s, k + Len(sep))>>

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) == IF i > Len(q) THEN "" ELSE IF i = Len(q) THEN q[i] ELSE q[i] \o sep \o JoinFrom(q, sep, i + 1)
Join(q, sep) == JoinFrom(q, sep, 1)

RECURSIVE ReplaceStr(_, _, _)
ReplaceStr(s, a, b) == LET k == Find(s, a) IN
    IF k = 0 THEN s ELSE Upto(s, k - 1) \o b \o ReplaceStr(From(s, k + Len(a)), a, b)

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |-> (CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c) + 31]
Code(c) == IF c \in DOMAIN CodeOf THEN CodeOf[c] ELSE 1000
LowerCode(c) == LET k == Code(c) IN IF k \in 65..90 THEN k + 32 ELSE k
LowerCodes(s) == [i \in 1..Len(s) |-> LowerCode(Ch(s, i))]
Codes(s) == [i \in 1..Len(s) |-> Code(Ch(s, i))]
\* Lexicographic order of sequences of numbers
LexLeq(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                    D == {i \in 1..n : a[i] # b[i]}
                IN IF D = {} THEN Len(a) <= Len(b)
                   ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNumber(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE ToNat(_)
ToNat(s) == IF s = "" THEN 0 ELSE 10 * ToNat(Upto(s, Len(s) - 1)) + (CodeOf[Ch(s, Len(s))] - 48)
=============================================================================
