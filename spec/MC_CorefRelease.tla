--------------------------- MODULE MC_CorefRelease ----------------------------
(* Exhaustive: trees of up to K words with relations and tags, documents of D    *)
(* sentences with spaces, and labels made of up to M parts.                      *)
EXTENDS CorefRelease, Json, TLC
CONSTANTS K, M, D, Emit
VARIABLES mode, w, S, q

Init == mode \in {"tree", "doc", "label"} /\ w = <<>> /\ S = <<>> /\ q = <<>>
NewWord(h, d, u) == [h |-> h, d |-> d, u |-> u, sp |-> "", t |-> 0]
\* Heads are any words before or after; a tree is what has no cycle
AddWord == /\ mode = "tree" /\ Len(w) < K
           /\ \E h \in 0..K, d \in {"root", "dep"}, u \in {"PUNCT", "NOUN", "VERB"} : h # Len(w) + 1 /\ w' = Append(w, NewWord(h, d, u))
           /\ UNCHANGED <<mode, S, q>>
AddSent == /\ mode = "doc" /\ Len(S) < D
           /\ \E n \in 0..2, sp \in {"", "No", "Yes"}, x \in {"", "No"}, mw \in BOOLEAN, nd \in {"", "n"}, np \in {"", "p"} :
                 /\ mw => n = 2
                 /\ (~mw \/ n = 0) => x = ""
                 /\ n = 0 => sp = ""
                 /\ S' = Append(S, [w |-> [i \in 1..n |-> [h |-> 0, d |-> "root", u |-> "X", sp |-> IF i = n THEN sp ELSE "No", t |-> IF mw THEN 1 ELSE 0]],
                                    tk |-> IF mw THEN <<[sp |-> x]>> ELSE <<>>, nd |-> nd, np |-> np])
           /\ UNCHANGED <<mode, w, q>>
Bits == {"spec", "gen", ".", "per", "APPOS", "-inv", "Part", "indirect_", "-", "loc"}
AddBit == mode = "label" /\ Len(q) < M /\ (\E b \in Bits : q' = Append(q, b)) /\ UNCHANGED <<mode, w, S>>
Next == AddWord \/ AddSent \/ AddBit
Spec == Init /\ [][Next]_<<mode, w, S, q>>

t == Join(q, "")
RECURSIVE Up(_, _, _)
Up(z, i, n) == IF i = 0 THEN TRUE ELSE IF n = 0 THEN FALSE ELSE Up(z, z[i].h, n - 1)
Tree(z) == \A i \in 1..Len(z) : z[i].h <= Len(z) /\ Up(z, i, Len(z))
\* Exactly the words at the top are roots, it stays a tree, the words at the top stay there
RootInv == mode = "tree" /\ w # <<>> /\ Tree(w) =>
    LET z == Rooted(w) IN Tree(z) /\ (\A i \in 1..Len(w) : (z[i].h = 0 <=> z[i].d = "root") /\ (z[i].h = 0 <=> w[i].h = 0) /\ z[i].u = w[i].u
                                                          /\ (w[i].d # "root" /\ w[i].h # 0 => z[i] = w[i])) /\ Rooted(z) = z
\* The end of a document or a paragraph is followed by a space; nothing else is changed
SpaceInv == mode = "doc" =>
    LET Z == Valid(S) IN
    /\ Valid(Z) = Z
    /\ \A s \in 1..Len(S) : S[s].w # <<>> =>
         LET n == Len(S[s].w) IN
         /\ \A i \in 1..(n - 1) : Z[s].w[i] = S[s].w[i]
         /\ Ends(S, s) => Z[s].w[n].sp # "No" /\ \A x \in SetOf(Z[s].tk) : x.sp # "No"
         /\ ~Ends(S, s) => Z[s] = S[s]
LabelInv == mode = "label" => /\ Relation(Relation(t)) = Relation(t) \/ ContainsStr(Relation(t), "indirect_")
                              /\ Kind(t) = "" => Kind(Type(t)) = ""
                              /\ ~ContainsStr(Relation(t), "-") /\ Low(Type(t)) = Type(t)
EmitInv == Emit => (IF mode = "tree" /\ Len(w) = K /\ Tree(w) THEN PrintT("@@STIM " \o ToJson([w |-> w]))
                    ELSE IF mode = "doc" /\ Len(S) = D THEN PrintT("@@STIM " \o ToJson([S |-> S]))
                    ELSE IF mode = "label" /\ q # <<>> THEN PrintT("@@STIM " \o ToJson([t |-> t])) ELSE TRUE)
=============================================================================
