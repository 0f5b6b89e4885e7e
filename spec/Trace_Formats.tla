----------------------------- MODULE Trace_Formats -----------------------------
EXTENDS Formats, TraceLib
VARIABLE l

(************************* columns (read.Conll, read.Conllup) *************************)
\* r.rows: lines as sequences of fields, r.attrs: names of columns (lower case); r.sents: lines of each sentence
Climb(h, i, k) == LET RECURSIVE go(_, _) go(x, left) == IF left = 0 \/ x = 0 THEN x ELSE go(h[x], left - 1) IN go(i, k)
OnCycle(h) == {i \in 1..Len(h) : \E k \in 1..Len(h) : Climb(h, i, k) = i}
Cycles(h) == {{j \in OnCycle(h) : \E k \in 0..Len(h) : Climb(h, i, k) = j} : i \in OnCycle(h)}
IsRange(f) == ContainsStr(f[1], "-")
SentV(r, s, out) ==
    LET attrs == r.attrs
        W == SelectSeq(s, LAMBDA f : ~IsRange(f)) T == SelectSeq(s, IsRange)
        col(a) == CHOOSE k \in 1..Len(attrs) : attrs[k] = a
        has(a) == \E k \in 1..Len(attrs) : attrs[k] = a
        val(f, a) == IF has(a) /\ col(a) <= Len(f) THEN f[col(a)] ELSE "_"
        head == [i \in 1..Len(W) |-> LET v == val(W[i], "head") IN IF v = "_" \/ (r.up /\ v = "???") THEN 0 ELSE IF IsNumber(v) THEN ToNat(v) ELSE -1]
        range == \A i \in 1..Len(W) : head[i] \in 0..Len(W)
        cyc == IF range THEN Cycles(head) ELSE {}
        refuse == \/ ~range \/ (cyc # {} /\ ~r.fix)
                  \/ r.strict /\ \E i \in 1..Len(s) : Len(s[i]) # Len(attrs)
                  \/ r.strict /\ \E i \in 1..Len(W) : val(W[i], "head") = "_"
                  \/ \E i \in 1..Len(W) : val(W[i], "ord") # ToString(i)
        std == {"ord", "form", "lemma", "upos", "xpos", "feats", "head", "deprel", "deps", "misc", "_"}
        pairs(f) == (IF val(f, "misc") = "_" THEN {} ELSE RangeOf(Split(val(f, "misc"), "|")))
                    \cup (IF r.up THEN {UpName(attrs[k]) \o "=" \o f[k] : k \in {j \in 1..Len(attrs) : j <= Len(f) /\ attrs[j] \notin std /\ f[j] # "_"}} ELSE {})
        moved == {i \in 1..Len(W) : out.w[i].h # head[i]}
    IN IF refuse THEN {"refuse"}
       ELSE IF out = <<>> THEN {"missing"}
       ELSE IF Len(out.w) # Len(W) THEN {"words"}
       ELSE Must(\A i \in moved : out.w[i].h = 0, "heads") \cup Must(\A c \in cyc : Cardinality(c \cap moved) = 1, "cycles") \cup Must(moved \subseteq UNION cyc, "heads")
            \cup UNION {Must(\A i \in 1..Len(W) : out.w[i][a] = val(W[i], a), "column-" \o a) : a \in {"form", "lemma", "upos", "xpos", "feats", "deprel", "deps"}}
            \cup Must(\A i \in 1..Len(W) : RangeOf(out.w[i].misc) = pairs(W[i]), "column-misc")
            \cup Must(Len(out.t) = Len(T) /\ \A k \in 1..Len(T) : LET p == Split(T[k][1], "-") IN out.t[k] = <<p[1], p[2], T[k][2]>>, "tokens")
ConllV(r) == LET v == [k \in 1..Len(r.sents) |-> SentV(r, r.sents[k], IF k <= Len(r.out) THEN r.out[k] ELSE <<>>)]
                 bad == {k \in 1..Len(v) : "refuse" \in v[k]}
             IN IF bad # {} THEN Must(r.x # "", "accepted")
                ELSE IF r.x # "" THEN {"raised"}
                ELSE UNION {v[k] : k \in 1..Len(v)} \cup Must(Len(r.out) = Len(r.sents), "sentences")

(************************************* writers *************************************)
VislV(r) == IF r.x # "" THEN {"raised"}
            ELSE Must(r.lines = FlattenSeq([k \in 1..Len(r.d) |-> VislLines(r.d[k], r.sec)]), "lines")
                 \cup Must(Len(r.back) = Len(r.d) /\ \A k \in 1..Len(r.d) : r.back[k].w = VislKept(r.d[k]).w, "read-words")
                 \cup Must(Len(r.back) = Len(r.d) /\ \A k \in 1..Len(r.d) : r.back[k].t = VislKept(r.d[k]).t, "read-tokens")
SdV(r) == IF r.x # "" THEN {"raised"} ELSE Must(r.lines = FlattenSeq([k \in 1..Len(r.d) |-> SdLines(r.d[k], r.o)]), "lines")
\* Treex: each tree as the nodes in the order of the file with the number of the node they are in
TreexV(r) == IF r.x # "" THEN {"raised"}
             ELSE IF Len(r.out) # Len(r.d) THEN {"trees"}
             ELSE UNION {LET t == r.d[k] p == Preorder(t, 0) o == r.out[k] IN
                         Must(o.text = t.text /\ o.zone = t.zone, "trees")
                         \cup Must(Len(o.w) = Len(p) /\ \A i \in 1..Len(p) : LET w == t.w[p[i]] z == o.w[i] IN
                                z.ord = ToString(p[i]) /\ z.up = ToString(w.h) /\ z.form = w.f /\ z.lemma = w.l /\ z.tag = w.u /\ z.deprel = w.d /\ z.pos = w.x /\ z.feat = w.fe, "nodes")
                         \cup Must(Cardinality({o.w[i].id : i \in 1..Len(o.w)}) = Len(o.w), "ids") : k \in 1..Len(r.d)}
\* LaTeX: rows of cells, edges <<head, word, relation, below>>, roots, the remark under the graph
TikzAttr(w, i, a) == CASE a = "form" -> w.f [] a = "lemma" -> w.l [] a = "upos" -> w.u [] a = "deprel" -> w.d [] a = "ord" -> ToString(i) [] a = "feats" -> w.fe
TikzV(r) == IF r.x # "" THEN {"raised"}
            ELSE IF Len(r.out) # Len(r.d) THEN {"trees"}
            ELSE UNION {LET t == r.d[k] o == r.out[k] n == Len(t.w) below == IF r.o.enh THEN UNION {{<<e[1], i, e[2], TRUE>> : e \in RangeOf(t.w[i].ed)} : i \in 1..n} ELSE {} IN
                        Must(o.rows = [a \in 1..Len(r.o.attrs) |-> [i \in 1..n |-> MapStr(TikzAttr(t.w[i], i, r.o.attrs[a]), Tex)]], "cells")
                        \cup Must({<<e[1], e[2], e[3], FALSE>> : e \in {x \in RangeOf(o.edges) : x[4] = FALSE}} = {<<t.w[i].h, i, IF t.w[i].h = 0 THEN "root" ELSE t.w[i].d, FALSE>> : i \in 1..n}, "edges")
                        \cup Must({e \in RangeOf(o.edges) : e[4] = TRUE} = {IF e[1] = 0 THEN <<0, e[2], "root", TRUE>> ELSE e : e \in below}, "enhanced")
                        \cup Must(o.heads = (IF r.o.id THEN <<"% sent_id = " \o t.id>> ELSE <<>>) \o (IF r.o.text THEN <<"% text = " \o (IF t.text # "" THEN t.text ELSE TextOf(t))>> ELSE <<>>) \o [i \in 1..Len(t.comment) |-> "%" \o t.comment[i]], "comments")
                        \cup Must(o.trans = LET q == SelectSeq(t.comment, LAMBDA c : StartsWith(c, " " \o r.o.note \o " = ")) IN IF r.o.note = "" \/ q = <<>> THEN "" ELSE MapStr(From(q[1], Len(r.o.note) + 5), Tex), "remark") : k \in 1..Len(r.d)}
\* 2D trees: depth of each node, edges
DepthOf(t, i) == LET RECURSIVE go(_) go(x) == IF x = 0 THEN 0 ELSE 1 + go(t.w[x].h) IN go(i)
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
Tikz2V(r) == IF r.x # "" THEN {"raised"}
             ELSE UNION {LET t == r.d[k] o == r.out[k] n == Len(t.w) IN
                         Must(o.rows = [a \in 1..Len(r.o.attrs) |-> [i \in 1..n |-> MapStr(TikzAttr(t.w[i], i, r.o.attrs[a]), Tex)]], "cells")
                         \cup Must(n = 0 \/ o.up = [i \in 1..n |-> MaxOf({DepthOf(t, j) : j \in 1..n}) - DepthOf(t, i)], "depths")
                         \cup Must(RangeOf(o.edges) = {<<t.w[i].h, i, t.w[i].d, FALSE>> : i \in {j \in 1..n : t.w[j].h # 0}}, "edges") : k \in 1..Len(r.d)}
\* data for the viewer
HtmlV(r) == IF r.x # "" THEN {"raised"}
            ELSE IF Len(r.out) # Len(r.d) THEN {"trees"}
            ELSE UNION {LET t == r.d[k] o == r.out[k] n == Len(t.w) id(x) == IF x = 0 THEN "n" \o t.sid ELSE "n" \o t.sid \o "-" \o ToString(x)
                            first(x) == LET q == Kids(t, x) IN IF q = <<>> THEN "" ELSE id(q[1])
                            next(x) == LET q == SelectSeq(Kids(t, t.w[x].h), LAMBDA y : y > x) IN IF q = <<>> THEN "" ELSE id(q[1])
                        IN Must(o.sentence = t.text /\ o.zone = t.zone, "trees")
                           \cup Must(Len(o.n) = n + 1 /\ o.n[1] = [id |-> id(0), parent |-> "", first |-> first(0)], "root")
                           \cup Must(Len(o.n) = n + 1 /\ \A i \in 1..n : LET z == o.n[i + 1] w == t.w[i] IN
                                /\ z.id = id(i) /\ z.parent = id(w.h) /\ z.first = first(i) /\ z.next = next(i)
                                /\ z.form = w.f /\ z.lemma = w.l /\ z.upos = w.u /\ z.xpos = w.x /\ z.feats = w.fe /\ z.deprel = w.d /\ z.misc = (IF w.sp THEN "SpaceAfter=No" ELSE "_"), "nodes")
                           \cup Must(o.desc = TextAsWords(t), "text") : k \in 1..Len(r.d)}
ListV(r) == IF r.x # "" THEN {"raised"}
            ELSE Must(r.out = [k \in 1..Len(r.d) |-> <<r.d[k].id, IF r.d[k].text # "" THEN r.d[k].text ELSE TextOf(r.d[k])>>], "items") \cup Must(r.ok, "markup")

(************************************* adding texts *************************************)
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ Ch(s, Len(s)) \in {" ", "\t", "\r", "\n"} THEN RTrim(Upto(s, Len(s) - 1)) ELSE s
AddSentV(r) == IF Len(r.lines) < Len(r.d) THEN Must(r.x # "", "accepted")
               ELSE IF r.x # "" THEN {"raised"}
               ELSE Must(\A k \in 1..Len(r.d) : r.text[k] = (IF r.into = "text" THEN RTrim(r.lines[k]) ELSE r.d[k].text), "text")
                    \cup Must(\A k \in 1..Len(r.d) : r.comments[k] = (IF r.d[k].comment = "" THEN <<>> ELSE <<r.d[k].comment>>) \o (IF r.into = "text" THEN <<>> ELSE <<" " \o r.into \o " = " \o RTrim(r.lines[k])>>), "comments")
Hist(r) == {r.op \o ":" \o c : c \in CASE r.op = "conll" -> ConllV(r) [] r.op = "visl" -> VislV(r) [] r.op = "sd" -> SdV(r) [] r.op = "treex" -> TreexV(r) [] r.op = "tikz" -> TikzV(r) [] r.op = "tikz2" -> Tikz2V(r)
              [] r.op = "html" -> HtmlV(r) [] r.op = "list" -> ListV(r) [] r.op = "addsent" -> AddSentV(r)}
Verdict(r) == IF r.k = "hang" THEN {"did-not-return"} ELSE Hist(r)
TInit == l = Start
TNext == /\ l <= Len(Log)
         /\ LET v == Verdict(Log[l]) IN (IF v = {} THEN TRUE ELSE Bad(l, v)) /\ l' = l + 1
TDone == Done(TLCGet("stats").diameter + Start - 1)
=============================================================================
