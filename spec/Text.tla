-------------------------------- MODULE Text --------------------------------
(* Text and tokens of sentences: computing text, tokenization, spaces.        *)
(* A sentence is [w: words, tk: tokens, tx: text or "" if it has none], words  *)
(* and tokens as in Resegment.                                                *)
EXTENDS Resegment

Spaces == {" ", "\t", "\n", "\r", " "}
WordChars == Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_čČéßů漢字")
IsSp(c) == c \in Spaces
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ Ch(s, 1) \in Spaces THEN LStrip(From(s, 2)) ELSE s

(******************************** computed text ******************************)
RECURSIVE Under(_, _, _)
HeadOf(w, k) == w[CHOOSE i \in 1..Len(w) : w[i].k = k].h
\* Is word k the word x or below it?
Under(w, k, x) == k = x \/ (HeadOf(w, k) # 0 /\ Under(w, HeadOf(w, k), x))
SubText(s, x, mwt) ==
    LET w == SelectSeq(s.w, LAMBDA u : x = 0 \/ Under(s.w, u.k, x))
    IN Text(IF mwt THEN w ELSE [i \in 1..Len(w) |-> [w[i] EXCEPT !.t = 0]], s.tk)

(******************************** tokenization *******************************)
Kind(c, simple) == IF c \in Spaces THEN "s" ELSE IF ~simple \/ c \in WordChars THEN "w" ELSE "p"
\* Maximal stretches of spaces and word characters; every other character for itself
Pieces(text, simple) ==
    FoldLeft(LAMBDA q, i : LET c == Ch(text, i) k == Kind(c, simple) IN
                IF q # <<>> /\ Last(q).k = k /\ k # "p" THEN [q EXCEPT ![Len(q)].s = @ \o c] ELSE Append(q, [s |-> c, k |-> k]),
             <<>>, [i \in 1..Len(text) |-> i])
Escape(s) == FoldLeft(LAMBDA a, i : LET c == Ch(s, i) IN a \o (CASE c = " " -> "\\s" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] c = "\n" -> "\\n" [] OTHER -> c),
                      "", [i \in 1..Len(s) |-> i])
\* [f: form, b: SpacesBefore, s: SpaceAfter, sa: SpacesAfter]
Tokenize(text, simple, keep) ==
    LET p == Pieces(text, simple)
        K == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : p[i].k # "s")
        after(i) == IF i < Len(p) /\ p[i + 1].k = "s" THEN p[i + 1].s ELSE ""
        tok(n) == LET i == K[n] a == after(i) IN
            [f |-> p[i].s,
             b |-> IF keep /\ n = 1 /\ i = 2 THEN Escape(p[1].s) ELSE "",
             s |-> IF a = "" /\ (keep \/ i < Len(p)) THEN "No" ELSE "",
             sa |-> IF keep /\ a \notin {"", " "} THEN Escape(a) ELSE ""]
    IN [n \in 1..Len(K) |-> tok(n)]

(************************** spaces from the known text ***********************)
RECURSIVE Follow(_, _, _)
\* q: tokens; as long as they follow the text
Follow(q, i, tx) ==
    IF i > Len(q) \/ ~StartsWith(tx, q[i].f) THEN q
    ELSE LET r == From(tx, Len(q[i].f) + 1) space == r = "" \/ Ch(r, 1) \in Spaces IN
         Follow([q EXCEPT ![i].sp = space], i + 1, LStrip(r))
FromText(s) == LET q == Tokens(s.w, s.tk) IN IF s.tx = TokensText(q) THEN q ELSE Follow(q, 1, s.tx)
\* The sentence with other token spaces
SetSpaces(s, q) ==
    LET at(i) == Cardinality({j \in 1..i : s.w[j].t = 0 \/ j = 1 \/ s.w[j - 1].t # s.w[j].t}) IN
    [s EXCEPT !.w = [i \in 1..Len(@) |-> IF @[i].t = 0 THEN [@[i] EXCEPT !.sp = q[at(i)].sp] ELSE @[i]],
              !.tk = [t \in 1..Len(@) |-> LET I == {i \in 1..Len(s.w) : s.w[i].t = t} IN IF I = {} THEN @[t] ELSE [@[t] EXCEPT !.sp = q[at(Min(I))].sp]]]

\* A document whose text is the text of a file: the text is read along the tokens.
\* a: [raw: rest of the text, par: is the place the start of a paragraph]
RECURSIVE Along(_, _, _)
Along(q, i, a) ==
    IF i > Len(q) THEN [a |-> a, q |-> q, ok |-> TRUE]
    ELSE IF ~StartsWith(a.raw, q[i].f) THEN [a |-> a, q |-> q, ok |-> FALSE]
    ELSE LET r == From(a.raw, Len(q[i].f) + 1) space == r = "" \/ Ch(r, 1) \in Spaces IN
         Along([q EXCEPT ![i].sp = space], i + 1, [raw |-> LStrip(r), par |-> Len(r) > 2 /\ StartsWith(r, "\n\n")])
AddText(ss, raw, par) ==
    FoldLeft(LAMBDA acc, i :
                LET x == Along(Tokens(ss[i].w, ss[i].tk), 1, acc.a)
                    s == SetSpaces(ss[i], x.q)
                IN [a |-> x.a, out |-> Append(acc.out, [w |-> s.w, tk |-> s.tk, tx |-> TokensText(x.q), np |-> par /\ acc.a.par])],
             [a |-> [raw |-> LStrip(raw), par |-> TRUE], out |-> <<>>], [i \in 1..Len(ss) |-> i]).out

(***************************** guessing of spaces ****************************)
NotAfter == {"¡", "¿", "(", "[", "{", "„", "/"}
NotBefore == {".", ",", ";", ":", "!", "?", "}", "]", ")", "/", "??", "???", "!!", "!!!", "...", "…"}
\* No space after word i, unless a goeswith follows or i is inside a token
NoSpace(s, i) ==
    IF s.w[i + 1].d = "goeswith" THEN s
    ELSE IF s.w[i].t = 0 THEN [s EXCEPT !.w[i].sp = FALSE, !.ch = TRUE]
    ELSE IF s.w[i + 1].t = s.w[i].t THEN s
    ELSE [s EXCEPT !.tk[s.w[i].t].sp = FALSE, !.ch = TRUE]
\* c: words after which rules of a language allow no space, too
GuessAfter(s0, fix, c) ==
    LET n == Len(s0.w)
        form(i) == s0.w[i].f
        low == \E i \in 1..n : form(i) = "„"
        NA == NotAfter \cup (IF low THEN {} ELSE {"“"})
        NB == NotBefore \cup (IF low THEN {"“"} ELSE {})
        even == Cardinality({i \in 1..n : form(i) = "\""}) % 2 = 0
        odd(i) == Cardinality({j \in 1..i : form(j) = "\""}) % 2 = 1
        step(s, i) ==
            LET a == IF form(i) \in NA \/ form(i + 1) \in NB THEN NoSpace(s, i) ELSE s IN
            IF form(i) # "\"" THEN a
            ELSE IF even THEN (IF odd(i) THEN NoSpace(a, i) ELSE NoSpace(a, i - 1))
            ELSE IF i = 1 THEN NoSpace(a, 1) ELSE a
        start == FoldLeft(NoSpace, [w |-> s0.w, tk |-> s0.tk, ch |-> FALSE], c)
        z == FoldLeft(step, start, [i \in 1..(n - 1) |-> i])
        e == IF n > 1 /\ form(n) = "\"" THEN NoSpace(z, n - 1) ELSE z
    IN [w |-> e.w, tk |-> e.tk, tx |-> IF fix /\ e.ch THEN Text(e.w, e.tk) ELSE s0.tx]
Guess(s0, fix) == GuessAfter(s0, fix, <<>>)
\* English: n't, 's; single quotes told apart by xpos (x); hyphens of compounds; dollars before numbers (upos u)
\* Romanian: hyphens at the beginning and end of words, but numbers
English(s, x, u) ==
    LET n == Len(s.w) f(i) == s.w[i].f
        near(i, p) == s.w[i].k = p \/ s.w[i].h = p
        hyphen(i) == f(i) = "-" /\ i > 1 /\ LET p == s.w[i].h IN near(i - 1, p) /\ near(i + 1, p)
        quote(i) == (f(i) = "'" /\ x[i] = "``") \/ (f(i + 1) = "'" /\ x[i + 1] = "''")
        first(i) == f(i + 1) \in {"n't", "'s"} \/ quote(i)
        all(i) == IF first(i) THEN <<i>> ELSE IF hyphen(i) THEN <<i - 1, i>> ELSE IF f(i) = "$" /\ u[i + 1] = "NUM" THEN <<i>> ELSE <<>>
    IN FlattenSeq([i \in 1..(n - 1) |-> all(i)])
Romanian(s) ==
    LET f(i) == s.w[i].f
        begins(t) == StartsWith(t, "-") /\ Chars(From(t, 2)) \ Chars("0123456789.,") # {}
        ends(t) == EndsWith(t, "-") /\ t # "-"
    IN SelectSeq([i \in 1..(Len(s.w) - 1) |-> i], LAMBDA i : begins(f(i + 1)) \/ ends(f(i)))

(****************************** plain-text files *****************************)
LinesOf(raw) == LET q == Split(ReplaceStr(raw, "\r\n", "\n"), "\n") IN IF Last(q) = "" THEN Front(q) ELSE q
\* Sentences one per line: [tx, nd: does a document start here]
ReadLines(raw, mode) ==
    LET q == LinesOf(raw)
        K == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : mode = "" \/ q[i] # "")
    IN [n \in 1..Len(K) |-> [tx |-> RStrip(q[K[n]]), nd |-> mode = "newdoc" /\ (n = 1 \/ q[K[n] - 1] = "")]]
\* Sentences on several lines with empty lines between them
ReadParagraphs(raw) ==
    LET f == FoldLeft(LAMBDA a, x : IF x = "" THEN (IF a.c = <<>> THEN a ELSE [q |-> Append(a.q, Join(a.c, " ")), c |-> <<>>])
                                    ELSE [a EXCEPT !.c = Append(@, RStrip(x))], [q |-> <<>>, c |-> <<>>], LinesOf(raw))
    IN IF f.c = <<>> THEN f.q ELSE Append(f.q, Join(f.c, " "))
\* Sentence s: [tx: text or "", comp: computed text, nd, np]; the lines written
WriteLines(q, mode, newdoc, newpar) ==
    FlattenSeq([i \in 1..Len(q) |->
        (IF newdoc /\ q[i].nd /\ i > 1 THEN <<"">> ELSE <<>>) \o (IF newpar /\ q[i].np /\ i > 1 THEN <<"">> ELSE <<>>)
        \o <<IF q[i].tx # "" THEN q[i].tx ELSE IF EndsWith(mode, "detokenize") THEN q[i].comp ELSE "">>])
=============================================================================
