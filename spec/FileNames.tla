----------------------------- MODULE FileNames -----------------------------
(* Which files a file argument names.  An argument is [s |-> string] or       *)
(* [l |-> list of names]; fs: pairs <<path, content>>; lists: pairs           *)
(* <<path of a file list, its lines>>; stdin: [text, lines].                  *)
EXTENDS Str, SequencesExt, FiniteSetsExt

\* Shell wildcards inside one path component: * ? ; a leading dot must be written out.
RECURSIVE Glob1(_, _)
Glob1(p, s) ==
    IF p = "" THEN s = ""
    ELSE IF Ch(p, 1) = "*" THEN \E i \in 1..Len(s) + 1 : Glob1(From(p, 2), From(s, i))
    ELSE s # "" /\ (Ch(p, 1) = "?" \/ Ch(p, 1) = Ch(s, 1)) /\ Glob1(From(p, 2), From(s, 2))
GlobPart(p, s) == (StartsWith(s, ".") => StartsWith(p, ".")) /\ Glob1(p, s)
Matches(pattern, path) == LET ps == Split(pattern, "/")  ss == Split(path, "/") IN
    Len(ps) = Len(ss) /\ \A i \in 1..Len(ps) : GlobPart(ps[i], ss[i])

\* Everything a (relative) wildcard may match: files and their directories
Paths(fs) == UNION {LET q == Split(fs[i][1], "/") IN {Join(SubSeq(q, 1, k), "/") : k \in 1..Len(q)}
                    : i \in {i \in 1..Len(fs) : ~StartsWith(fs[i][1], "/")}}
SortedPaths(S) == SetToSortSeq(S, LAMBDA a, b : a # b /\ LexLeq(Codes(a), Codes(b)))
Dir(path) == LET K == {k \in 1..Len(path) : Ch(path, k) = "/"} IN IF K = {} THEN "" ELSE Upto(path, Max(K) - 1)
Under(dir, name) == IF StartsWith(name, "/") \/ dir = "" THEN name ELSE dir \o "/" \o name
AllBlank(s) == \A i \in 1..Len(s) : Ch(s, i) \in {" ", "\t"}
FromList(dir, lines) == LET q == SelectSeq(lines, LAMBDA x : ~AllBlank(x)) IN [i \in 1..Len(q) |-> Under(dir, q[i])]
At(pairs, path) == {i \in 1..Len(pairs) : pairs[i][1] = path}

Failed == [bad |-> TRUE, names |-> <<>>]
Good(q) == [bad |-> FALSE, names |-> q]
Token(t, fs, lists, stdin) ==
    IF StartsWith(t, "!") THEN LET S == {p \in Paths(fs) : Matches(From(t, 2), p)}
                               IN IF S = {} THEN Failed ELSE Good(SortedPaths(S))
    ELSE IF t = "@-" THEN Good(FromList("", stdin.lines))
    ELSE IF StartsWith(t, "@") THEN LET K == At(lists, From(t, 2)) IN
         IF K = {} THEN Failed ELSE Good(FromList(Dir(From(t, 2)), lists[CHOOSE i \in K : TRUE][2]))
    ELSE Good(<<t>>)
Tokens(s) == SelectSeq(Split(ReplaceStr(s, ",", " "), " "), LAMBDA x : x # "")
Names(arg, fs, lists, stdin) ==
    IF "l" \in DOMAIN arg THEN Good(arg.l)
    ELSE IF arg.s = "" THEN Failed
    ELSE LET q == [i \in 1..Len(Tokens(arg.s)) |-> Token(Tokens(arg.s)[i], fs, lists, stdin)]
         IN IF \E i \in 1..Len(q) : q[i].bad THEN Failed ELSE Good(FlattenSeq([i \in 1..Len(q) |-> q[i].names]))
Content(name, fs, stdin) == IF name = "-" THEN stdin.text
    ELSE LET K == At(fs, name) IN IF K = {} THEN "!missing" ELSE fs[CHOOSE i \in K : TRUE][2]
=============================================================================
