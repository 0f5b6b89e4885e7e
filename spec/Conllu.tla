------------------------------- MODULE Conllu -------------------------------
(***************************************************************************)
(* The CoNLL-U text format: what a sequence of lines means and how a       *)
(* document is written.  A line is <<>> (blank), <<"#...">> (a comment) or *)
(* the sequence of its ten columns.                                        *)
(*                                                                         *)
(* A tree t:                                                               *)
(*   sid  : "" or "=ID"            text : "" or "=sentence"                *)
(*   nd, np : "" none, "!" without id, "=id"                               *)
(*   com  : the comment lines in order; the special ones as "$S" sent_id,  *)
(*          "$T" text, "$D" newdoc, "$P" newpar, "$G" global.Entity        *)
(*   js   : sequence of <<key, value text>>      dj : same, document-wide  *)
(*   ge   : "" or the global.Entity declaration met in this tree           *)
(*   w    : sequence of words <<form, lemma, upos, xpos, feats, head,      *)
(*          deprel, deps, misc>>                                           *)
(*   e    : sequence of <<ID, form, lemma, upos, xpos, feats, deps, misc>> *)
(*   m    : sequence of <<first, last, form, misc>>                        *)
(***************************************************************************)
EXTENDS DualMap

C == Conf("misc")
White == {" ", "\t"}
RECURSIVE SkipWhite(_)
SkipWhite(s) == IF s # "" /\ Ch(s, 1) \in White THEN SkipWhite(From(s, 2)) ELSE s
RECURSIVE FirstWord(_)
FirstWord(s) == IF s = "" \/ Ch(s, 1) \in White THEN "" ELSE Ch(s, 1) \o FirstWord(From(s, 2))

(******************************** comments *********************************)
Blank == [sid |-> "", text |-> "", nd |-> "", np |-> "", com |-> <<>>, js |-> <<>>, dj |-> <<>>, ge |-> "",
          w |-> <<>>, e |-> <<>>, m |-> <<>>]
\* "= value" after optional blanks; "" if there is no "="
AfterEq(s) == LET x == SkipWhite(s) IN IF StartsWith(x, "=") THEN "=" \o SkipWhite(From(x, 2)) ELSE ""
SentId(s) == IF ~StartsWith(s, "# sent_id") THEN ""
             ELSE LET x == From(s, 10)
                      y == IF AfterEq(x) # "" THEN From(AfterEq(x), 2) ELSE IF StartsWith(x, " ") THEN SkipWhite(x) ELSE ""
                  IN FirstWord(y)
IsText(s) == StartsWith(s, "# text") /\ AfterEq(From(s, 7)) # ""
\* "" if not such a comment, "!" without an id, "=id"
ParDoc(s, name) ==
    IF s = "# " \o name THEN "!"
    ELSE LET p == "# " \o name \o " " IN
         IF ~StartsWith(s, p) THEN ""
         ELSE LET x == SkipWhite(From(s, Len(p) + 1)) IN
              IF StartsWith(x, "id") /\ Len(AfterEq(From(x, 3))) > 1 THEN AfterEq(From(x, 3)) ELSE ""
JsonKey(s, p) == IF StartsWith(s, p) /\ ContainsStr(s, " = ") THEN SubSeq(s, Len(p) + 1, Find(s, " = ") - 1) ELSE ""
AddComment(t, s) ==
    IF SentId(s) # "" THEN [t EXCEPT !.sid = "=" \o SentId(s), !.com = Append(@, "$S")]
    ELSE IF IsText(s) THEN [t EXCEPT !.text = AfterEq(From(s, 7)), !.com = Append(@, "$T")]
    ELSE IF ParDoc(s, "newdoc") # "" THEN [t EXCEPT !.nd = ParDoc(s, "newdoc"), !.com = Append(@, "$D")]
    ELSE IF ParDoc(s, "newpar") # "" THEN [t EXCEPT !.np = ParDoc(s, "newpar"), !.com = Append(@, "$P")]
    ELSE IF JsonKey(s, "# doc_json_") # "" THEN [t EXCEPT !.dj = Append(@, <<JsonKey(s, "# doc_json_"), From(s, Find(s, " = ") + 3)>>)]
    ELSE IF JsonKey(s, "# json_") # "" THEN [t EXCEPT !.js = Append(@, <<JsonKey(s, "# json_"), From(s, Find(s, " = ") + 3)>>)]
    ELSE IF StartsWith(s, "# global.Entity = ") THEN [t EXCEPT !.ge = From(s, 19), !.com = Append(@, "$G")]
    ELSE [t EXCEPT !.com = Append(@, s)]

(********************************** rows ***********************************)
AddRow(t, f) ==
    IF ContainsStr(f[1], "-")
    THEN LET r == Split(f[1], "-") IN [t EXCEPT !.m = Append(@, <<ToNat(r[1]), ToNat(r[2]), f[2], f[10]>>)]
    ELSE IF ContainsStr(f[1], ".")
    THEN [t EXCEPT !.e = Append(@, <<f[1], f[2], f[3], f[4], f[5], f[6], f[9], f[10]>>)]
    ELSE [t EXCEPT !.w = Append(@, <<f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10]>>)]
\* A token takes over SpaceAfter=No from its last word; its words have no SpaceAfter.
MiscMap(s) == Parse(C, s)
Drop(s, n) == IF n \in DOMAIN MiscMap(s) THEN Serialize(C, Without(MiscMap(s), n)) ELSE s
Put(s, n, v) == IF n \in DOMAIN MiscMap(s) /\ MiscMap(s)[n] = v THEN s ELSE Serialize(C, With(MiscMap(s), n, v))
NoSpace(s) == "SpaceAfter" \in DOMAIN MiscMap(s) /\ MiscMap(s)["SpaceAfter"] = "=No"
InToken(t, k) == \E j \in 1..Len(t.m) : t.m[j][1] <= k /\ k <= t.m[j][2]
TakeOver(t) ==
    [t EXCEPT !.m = [j \in 1..Len(t.m) |-> IF NoSpace(t.w[t.m[j][2]][9])
                                           THEN [t.m[j] EXCEPT ![4] = Put(@, "SpaceAfter", "=No")] ELSE t.m[j]],
              !.w = [k \in 1..Len(t.w) |-> IF InToken(t, k) THEN [t.w[k] EXCEPT ![9] = Drop(@, "SpaceAfter")] ELSE t.w[k]]]
\* One artificial word with MISC Empty=Yes stands for a sentence without words.
NoWords(t) == IF Len(t.w) = 1 /\ t.w[1][9] = "Empty=Yes" THEN [t EXCEPT !.w = <<>>] ELSE t
ReadTree(lines) == LET add(t, x) == IF Len(x) = 1 THEN AddComment(t, x[1]) ELSE AddRow(t, x)
                   IN TakeOver(NoWords(FoldLeft(add, Blank, lines)))

\* Sentences are separated by blank lines; parts without any word are no sentences.
RECURSIVE Parts(_, _)
Parts(lines, cur) == IF lines = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
    ELSE IF Head(lines) = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Parts(Tail(lines), <<>>)
    ELSE Parts(Tail(lines), Append(cur, Head(lines)))
IsSentence(part) == \E i \in 1..Len(part) : Len(part[i]) > 1 /\ IsNumber(part[i][1])
ReadTrees(lines) == LET ps == SelectSeq(Parts(lines, <<>>), IsSentence) IN [i \in 1..Len(ps) |-> ReadTree(ps[i])]

(*********************************** ids ***********************************)
IdOf(t) == IF t.sid = "" THEN "" ELSE Split1(From(t.sid, 2), "/")[1]
ZoneOf(t) == LET p == Split1(From(t.sid, 2), "/") IN IF t.sid # "" /\ Len(p) = 2 THEN p[2] ELSE ""
\* Consecutive trees with one id make one bundle; a tree without an id makes a bundle named by its number.
RECURSIVE Bundles(_, _)
Bundles(ts, acc) ==
    IF ts = <<>> THEN acc
    ELSE LET t == Head(ts)
             n == Len(acc)
         IN IF n > 0 /\ t.sid # "" /\ acc[n].id = IdOf(t) /\ Last(acc[n].trees).sid # ""
            THEN Bundles(Tail(ts), [acc EXCEPT ![n] = [@ EXCEPT !.trees = Append(@, t)]])
            ELSE Bundles(Tail(ts), Append(acc, [id |-> IF t.sid = "" THEN ToString(n + 1) ELSE IdOf(t), trees |-> <<t>>]))
FullId(id, zone) == IF zone = "" THEN id ELSE id \o "/" \o zone
RECURSIVE SetKeys(_, _)
SetKeys(pairs, m) == IF pairs = <<>> THEN m ELSE SetKeys(Tail(pairs), With(m, Head(pairs)[1], Head(pairs)[2]))
EmptyMap == [n \in {} |-> ""]
\* A document: bundles, document-wide json, the entity declaration (the last one met counts)
ReadDoc(lines) ==
    LET ts == ReadTrees(lines) IN
    [bundles |-> Bundles(ts, <<>>),
     dj |-> FoldLeft(LAMBDA m, t : SetKeys(t.dj, m), EmptyMap, ts),
     ge |-> FoldLeft(LAMBDA g, t : IF t.ge = "" THEN g ELSE t.ge, "", ts)]

(********************************* writing *********************************)
TokenForms(t) ==
    LET firsts == SelectSeq([k \in 1..Len(t.w) |-> k], LAMBDA k : \A j \in 1..Len(t.m) : ~(t.m[j][1] < k /\ k <= t.m[j][2]))
        form(k) == IF InToken(t, k) THEN LET j == CHOOSE j \in 1..Len(t.m) : t.m[j][1] = k IN <<t.m[j][3], t.m[j][4]>>
                   ELSE <<t.w[k][1], t.w[k][9]>>
    IN [i \in 1..Len(firsts) |-> form(firsts[i])]
\* The text computed from the tokens: joined by single spaces except after SpaceAfter=No
ComputedText(t) ==
    LET fs == TokenForms(t) IN
    FoldLeft(LAMBDA acc, i : acc \o fs[i][1] \o (IF i = Len(fs) \/ NoSpace(fs[i][2]) THEN "" ELSE " "), "", [i \in 1..Len(fs) |-> i])
TextOf(t) == IF t.text = "" THEN ComputedText(t) ELSE From(t.text, 2)
ParDocLine(name, v) == "# " \o name \o (IF v = "!" THEN "" ELSE " id = " \o From(v, 2))

\* The comment lines of a tree; opt = [sid, text: BOOLEAN].  Special comments keep the places they came from; missing
\* ones are inserted in the order newdoc, global.Entity, newpar, sent_id, text, before the other comments not yet written.
CommentLines(t, id, ge, opt) ==
    LET n == Len(t.com)
        val(c) == CASE c = "$S" -> IF opt.sid THEN <<"# sent_id = " \o id>> ELSE <<>>
                    [] c = "$T" -> IF opt.text THEN <<"# text = " \o TextOf(t)>> ELSE <<>>
                    [] c = "$D" -> IF opt.sid /\ t.nd # "" THEN <<ParDocLine("newdoc", t.nd)>> ELSE <<>>
                    [] c = "$P" -> IF opt.sid /\ t.np # "" THEN <<ParDocLine("newpar", t.np)>> ELSE <<>>
                    [] c = "$G" -> IF ge # "" THEN <<"# global.Entity = " \o ge>> ELSE <<>>
                    [] OTHER -> <<c>>
        upto(s, i) == IF i <= s.k THEN s
                      ELSE [k |-> i, out |-> FoldLeft(LAMBDA acc, j : IF j <= s.k THEN acc ELSE acc \o val(t.com[j]), s.out, [j \in 1..i |-> j])]
        place(s, on, c, line) == IF ~on THEN s
                                 ELSE IF \E i \in 1..n : t.com[i] = c THEN upto(s, Max({i \in 1..n : t.com[i] = c}))
                                 ELSE [s EXCEPT !.out = Append(@, line)]
        s0 == [k |-> 0, out |-> <<>>]
        s1 == IF n > 0 /\ StartsWith(t.com[1], "# global.columns") THEN upto(s0, 1) ELSE s0
        s2 == place(s1, opt.sid /\ t.nd # "", "$D", ParDocLine("newdoc", t.nd))
        s3 == place(s2, opt.sid /\ t.nd # "" /\ ge # "", "$G", "# global.Entity = " \o ge)
        s4 == place(s3, opt.sid /\ t.np # "", "$P", ParDocLine("newpar", t.np))
        s5 == place(s4, opt.sid, "$S", "# sent_id = " \o id)
        s6 == IF opt.text /\ ~(\E i \in 1..n : t.com[i] = "$T") THEN [s5 EXCEPT !.out = Append(@, "# text = " \o TextOf(t))] ELSE s5
    IN upto(s6, n).out
SortKeys(m) == SetToSortSeq(DOMAIN m, LAMBDA x, y : LexLeq(Codes(x), Codes(y)))
JsonLines(prefix, m) == LET q == SortKeys(m) IN [i \in 1..Len(q) |-> <<prefix \o q[i] \o " = " \o m[q[i]]>>]

EMajor(x) == ToNat(Split(x[1], ".")[1])
EmptyRow(x) == <<x[1], x[2], x[3], x[4], x[5], x[6], "_", "_", x[7], x[8]>>
WordRow(t, k) == <<ToString(k)>> \o t.w[k]
MwtRow(x) == <<ToString(x[1]) \o "-" \o ToString(x[2]), x[3], "_", "_", "_", "_", "_", "_", "_", x[4]>>
Rows(t) ==
    LET at(k) == LET s == SelectSeq(t.e, LAMBDA x : EMajor(x) = k) IN [i \in 1..Len(s) |-> EmptyRow(s[i])]
        tok(k) == LET s == SelectSeq(t.m, LAMBDA x : x[1] = k) IN [i \in 1..Len(s) |-> MwtRow(s[i])]
    IN FoldLeft(LAMBDA acc, k : acc \o (IF k = 0 THEN <<>> ELSE tok(k) \o <<WordRow(t, k)>>) \o at(k), <<>>, [k \in 1..Len(t.w) + 1 |-> k - 1])
       \o (IF t.w = <<>> THEN <<<<"1", "_", "_", "_", "_", "_", "0", "_", "_", "Empty=Yes">>>> ELSE <<>>)
TreeLines(t, id, ge, opt) ==
    IF ~opt.empty /\ t.w = <<>> /\ t.e = <<>> THEN <<>>
    ELSE LET c == CommentLines(t, id, ge, opt) IN
         [i \in 1..Len(c) |-> <<c[i]>>] \o JsonLines("# json_", SetKeys(t.js, EmptyMap)) \o Rows(t) \o <<<<>>>>
Default == [sid |-> TRUE, text |-> TRUE, empty |-> TRUE]
BundleLines(b, ge, opt) == FoldLeft(LAMBDA acc, t : acc \o TreeLines(t, FullId(b.id, ZoneOf(t)), ge, opt), <<>>, b.trees)
WriteDoc(d, opt) == JsonLines("# doc_json_", d.dj) \o FoldLeft(LAMBDA acc, b : acc \o BundleLines(b, d.ge, opt), <<>>, d.bundles)

(* What the API shows of a tree *)
Shown(t, id) == [sid |-> FullId(id, ZoneOf(t)), zone |-> ZoneOf(t), text |-> t.text, nd |-> t.nd, np |-> t.np,
                 js |-> SetKeys(t.js, EmptyMap), w |-> t.w, e |-> t.e, m |-> t.m]
ShownDoc(d) == [i \in 1..Len(d.bundles) |->
                  [id |-> d.bundles[i].id,
                   trees |-> [j \in 1..Len(d.bundles[i].trees) |-> Shown(d.bundles[i].trees[j], d.bundles[i].id)]]]
=============================================================================
