--------------------------------- MODULE Draw ---------------------------------
(* Drawings of trees in text: sequences of lines, one for each node.  Glyphs   *)
(* are letters here: - and | are lines, + two lines which cross, F and L the     *)
(* upper and lower end of a vertical line at a child, K U D a branch to a child,  *)
(* O T J B a node with no lines, one down, one up, both.  Labels are in small      *)
(* letters.  A drawing means what one reads off it by following the lines.          *)
EXTENDS Str, Naturals, Sequences, SequencesExt, FiniteSets

UpG == {"|", "+", "L", "K", "U", "D", "J", "B"}
DownG == {"|", "+", "F", "K", "U", "D", "T", "B"}
LeftG == {"-", "+", "O", "T", "J", "B"}
RightG == {"-", "+", "F", "L", "K", "U", "D"}
NodeG == {"O", "T", "J", "B"}
BranchG == {"F", "L", "K", "U", "D"}
Glyphs == UpG \cup DownG \cup LeftG \cup RightG
At(R, i, c) == IF i \in 1..Len(R) /\ c \in 1..Len(R[i]) THEN Ch(R[i], c) ELSE " "
\* Every line leads somewhere: only the drawn root begins at the left margin
Joined(R) == \A i \in 1..Len(R) : \A c \in 1..(Len(R[i]) + 1) :
    /\ (At(R, i, c) \in UpG) <=> (At(R, i - 1, c) \in DownG)
    /\ (At(R, i, c) \in DownG) <=> (At(R, i + 1, c) \in UpG)
    /\ (At(R, i, c) \in LeftG) <=> (c = 1 /\ At(R, i, 1) \in LeftG) \/ At(R, i, c - 1) \in RightG
\* Columns of the nodes of a line
NodesAt(R, i) == {c \in 1..Len(R[i]) : Ch(R[i], c) \in NodeG}
\* The column in which the line to the left of column c ends (0: the margin)
RECURSIVE Leftwards(_, _, _)
Leftwards(R, i, c) == IF c <= 1 THEN 0 ELSE IF At(R, i, c - 1) \in {"-", "+"} THEN Leftwards(R, i, c - 1) ELSE c - 1
RECURSIVE Above(_, _, _)
Above(R, i, c) == IF At(R, i, c) \in UpG /\ i > 1 THEN Above(R, i - 1, c) ELSE i
RECURSIVE Below(_, _, _)
Below(R, i, c) == IF At(R, i, c) \in DownG /\ i < Len(R) THEN Below(R, i + 1, c) ELSE i
\* Nodes on the vertical line through a cell
OnLine(R, i, c) == {j \in Above(R, i, c)..Below(R, i, c) : At(R, j, c) \in NodeG}
\* The line of the parent of the node in line i (0: none)
ParentOf(R, i) ==
    LET c == Leftwards(R, i, CHOOSE x \in NodesAt(R, i) : TRUE) IN
    IF c = 0 THEN 0 ELSE CHOOSE j \in OnLine(R, i, c) : TRUE
\* I: what is drawn: h: line of the head (0: the drawn root), e: is it an empty node, which hangs nowhere?
\* Every word is one node, every vertical line belongs to one node
Sound(R, I) == /\ Len(R) = Len(I) /\ Joined(R)
               /\ \A i \in 1..Len(I) : Cardinality(NodesAt(R, i)) = IF I[i].e THEN 0 ELSE 1
               /\ \A i \in 1..Len(I) : ~I[i].e => LET c == Leftwards(R, i, CHOOSE x \in NodesAt(R, i) : TRUE) IN c = 0 \/ (At(R, i, c) \in BranchG /\ Cardinality(OnLine(R, i, c)) = 1)
               /\ \A i \in 1..Len(R) : \A c \in 1..Len(R[i]) : Ch(R[i], c) \in BranchG \cup {"|", "+"} => Cardinality(OnLine(R, i, c)) = 1
Heads(R, I) == \A i \in 1..Len(I) : ~I[i].e => ParentOf(R, i) = I[i].h
\* Which side of the head a branch is on (with hints)
Hints(R, I, on) == \A i \in 1..Len(I) : ~I[i].e /\ I[i].h # 0 =>
    LET g == At(R, i, Leftwards(R, i, CHOOSE x \in NodesAt(R, i) : TRUE)) IN
    IF on THEN g \in (IF i < I[i].h THEN {"F", "D"} ELSE {"L", "U"}) ELSE g \in (IF i < I[i].h THEN {"F", "K"} ELSE {"L", "K"})
\* Leaves are as far to the right of their parent as the indent says, other words at least so
Col(R, i) == CHOOSE x \in NodesAt(R, i) : TRUE
Indents(R, I, n) == \A i \in 1..Len(I) : ~I[i].e /\ I[i].h # 0 =>
    IF \E j \in 1..Len(I) : I[j].h = i /\ ~I[j].e THEN Col(R, i) >= Col(R, I[i].h) + n + 1 ELSE Col(R, i) = Col(R, I[i].h) + n + 1

\* ---------------------------------------------------------------- the block
\* One step of drawing: the node in line x and its branches.  It may be taken for any node whose branch is there.
Last0(s) == IF s = "" THEN "" ELSE Ch(s, Len(s))
Ends(s) == Last0(s) \in {"-", "F", "L", "+", "U", "D", "K"}
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
KidsOf(I, x) == {i \in 1..Len(I) : I[i].h = x /\ ~I[i].e}
SMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SMax(S) == CHOOSE a \in S : \A b \in S : a >= b
Step(R, I, x, o) ==
    LET S == KidsOf(I, x) \cup {x} a == SMin(S) b == SMax(S)
        long == SMax({Len(R[i]) : i \in a..b})
        pad(i) == R[i] \o Rep(IF Ends(R[i]) THEN "-" ELSE " ", long - Len(R[i]))
        lab(i) == IF o.classic THEN I[i].lab ELSE ""
        new(i) == LET p == pad(i) IN
            IF i = x THEN p \o Rep("-", o.indent) \o (IF a = i /\ b = i THEN "O" ELSE IF a = i THEN "T" ELSE IF b = i THEN "J" ELSE "B") \o lab(i)
            ELSE IF i \notin S THEN p \o (IF Ends(p) THEN Rep("-", o.indent) \o "+" ELSE Rep(" ", o.indent) \o "|")
            ELSE p \o Rep(" ", o.indent) \o (IF a = i THEN "F" ELSE IF b = i THEN "L" ELSE IF ~o.hints THEN "K" ELSE IF i < x THEN "D" ELSE "U")
                   \o (IF KidsOf(I, i) = {} THEN Rep("-", o.indent) \o "O" \o lab(i) ELSE "")
    IN [i \in 1..Len(R) |-> IF i \in a..b THEN new(i) ELSE R[i]]
\* The column for labels at the end
Labelled(R, I, o) ==
    IF o.classic THEN [i \in 1..Len(R) |-> IF I[i].e THEN R[i] \o I[i].lab ELSE R[i]]
    ELSE LET long == IF o.align THEN SMax({Len(R[i]) : i \in 1..Len(R)}) ELSE 0 IN [i \in 1..Len(R) |-> R[i] \o Rep(" ", long - Len(R[i])) \o I[i].lab]
=============================================================================
