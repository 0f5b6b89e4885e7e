------------------------------ MODULE DualMap ------------------------------
(***************************************************************************)
(* The attribute mappings (FEATS, MISC, "other" of mentions): a mapping    *)
(* and its text form, each readable and writable at any time.              *)
(* A value v is written "=v"; an item without a value has the value "!".   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, FiniteSetsExt, Str

Flag == "!"
Nothing == "="      \* the value of a missing name
Conf(kind) == IF kind = "other" THEN [sep |-> ",", eq |-> ":", none |-> ""] ELSE [sep |-> "|", eq |-> "=", none |-> "_"]

Item(c, text) == LET p == Split1(text, c.eq) IN IF Len(p) = 2 THEN <<p[1], "=" \o p[2]>> ELSE <<p[1], Flag>>
\* The mapping a text stands for; the last of several items with one name counts.
Parse(c, text) ==
    IF text = c.none \/ text = "" THEN [n \in {} |-> ""]
    ELSE LET items == [i \in 1..Len(Split(text, c.sep)) |-> Item(c, Split(text, c.sep)[i])]
             names == {items[i][1] : i \in 1..Len(items)}
         IN [n \in names |-> items[Max({i \in 1..Len(items) : items[i][1] = n})][2]]
ItemText(c, n, v) == IF v = Flag THEN n ELSE n \o c.eq \o From(v, 2)
\* Is this text the canonical form of the mapping: every item once, sorted by the lower-cased name?
Canonical(c, m, text) ==
    IF DOMAIN m = {} THEN text = c.none
    ELSE LET parts == Split(text, c.sep) IN
         /\ Len(parts) = Cardinality(DOMAIN m)
         /\ {parts[i] : i \in 1..Len(parts)} = {ItemText(c, n, m[n]) : n \in DOMAIN m}
         /\ \A i \in 1..Len(parts) - 1 : LexLeq(LowerCodes(Item(c, parts[i])[1]), LowerCodes(Item(c, parts[i+1])[1]))

SortedNames(m) == SetToSortSeq(DOMAIN m, LAMBDA x, y : LexLeq(LowerCodes(x), LowerCodes(y)))
\* One canonical text (names that differ in case only come in some order)
Serialize(c, m) == IF DOMAIN m = {} THEN c.none
                   ELSE LET q == SortedNames(m) IN Join([i \in 1..Len(q) |-> ItemText(c, q[i], m[q[i]])], c.sep)

(* The abstract state: the mapping, and the text it was assigned as, if any.                      *)
(* asis: the text as assigned is (still) a correct answer; canon: the canonical text is one.      *)
New(c, m) == [m |-> m, text |-> "", asis |-> FALSE, canon |-> TRUE]
Assigned(c, text) == [m |-> Parse(c, text), text |-> IF text = "" THEN c.none ELSE text, asis |-> TRUE, canon |-> FALSE]
\* A write that may or may not have had an effect on the mapping
Written(d, m) == IF m = d.m THEN [d EXCEPT !.canon = TRUE] ELSE [m |-> m, text |-> "", asis |-> FALSE, canon |-> TRUE]
Without(m, k) == [n \in DOMAIN m \ {k} |-> m[n]]
With(m, k, v) == [n \in DOMAIN m \cup {k} |-> IF n = k THEN v ELSE m[n]]
Set(c, d, k, v) == IF v = Nothing THEN Written(d, Without(d.m, k)) ELSE Written(d, With(d.m, k, v))
Get(d, k) == IF k \in DOMAIN d.m THEN d.m[k] ELSE Nothing
TextOK(c, d, text) == (d.asis /\ text = d.text) \/ (d.canon /\ Canonical(c, d.m, text))
\* Afterwards that text is the one.
TextSeen(d, text) == [d EXCEPT !.text = text, !.asis = TRUE, !.canon = FALSE]
=============================================================================
