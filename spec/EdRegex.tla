------------------------------ MODULE EdRegex -------------------------------
(* POSIX basic and extended regular expressions: parsing of a pattern into a *)
(* tree and leftmost-longest matching with subexpressions.  A pattern the    *)
(* parser does not cover is reported as unsupported (the generators do not   *)
(* produce such patterns; a trace that contains one is not judged).          *)
EXTENDS EdText

\* --- bracket expressions ---------------------------------------------------
ClassSet(name) ==
  CASE name = <<97,108,112,104,97>> -> {c \in 0..127 : IsAlpha(c)}
    [] name = <<100,105,103,105,116>> -> 48..57
    [] name = <<97,108,110,117,109>> -> {c \in 0..127 : IsAlnum(c)}
    [] name = <<117,112,112,101,114>> -> 65..90
    [] name = <<108,111,119,101,114>> -> 97..122
    [] name = <<115,112,97,99,101>> -> {c \in 0..127 : IsSpace(c)}
    [] name = <<98,108,97,110,107>> -> {9, 32}
    [] name = <<112,117,110,99,116>> -> {c \in 0..127 : IsPunct(c)}
    [] name = <<120,100,105,103,105,116>> -> (48..57) \cup (65..70) \cup (97..102)
    [] OTHER -> {}

\* Items of a bracket list from position p; stops at the closing bracket.
SetErr(e) == [ok |-> FALSE, p |-> 0, set |-> {}, err |-> e]
RECURSIVE SetItems(_, _, _, _)
SetItems(s, p, first, acc) ==
  IF p > Len(s) THEN SetErr("unsupported")
  ELSE IF s[p] = 93 /\ ~first THEN [ok |-> TRUE, p |-> p + 1, set |-> acc, err |-> ""]
  ELSE IF s[p] = 91 /\ At(s, p + 1) = 58
       THEN LET e == FindByte(s, 58, p + 2)
            IN IF At(s, e + 1) # 93 THEN SetErr("unsupported")
               ELSE IF ClassSet(SubSeq(s, p + 2, e - 1)) = {} THEN SetErr("Invalid character class name")
               ELSE SetItems(s, e + 2, FALSE, acc \cup ClassSet(SubSeq(s, p + 2, e - 1)))
  ELSE IF At(s, p + 1) = 45 /\ At(s, p + 2) # 93 /\ p + 2 <= Len(s)
       THEN IF s[p] > s[p + 2] THEN SetErr("Invalid range end")
            ELSE SetItems(s, p + 3, FALSE, acc \cup (s[p]..s[p + 2]))
  ELSE SetItems(s, p + 1, FALSE, acc \cup {s[p]})

ParseSet(s, p) ==           \* p: just after `['
  LET neg == At(s, p) = 94
      r == SetItems(s, IF neg THEN p + 1 ELSE p, TRUE, {})
  IN [ok |-> r.ok, err |-> r.err, p |-> r.p,
      t |-> [k |-> "set", neg |-> neg, s |-> r.set]]

\* --- parser ------------------------------------------------------------------
\* Result: [ok, err, p, t, n]   (n = number of groups opened so far)
\* Tree:   [k |-> "seq", xs], [k |-> "alt", xs], [k |-> "rep", x, lo, hi],
\*         [k |-> "grp", i, x], chr, any, set, bol, eol, ref
POk(p, t, n) == [ok |-> TRUE, err |-> "", p |-> p, t |-> t, n |-> n]
PErr(e) == [ok |-> FALSE, err |-> e, p |-> 0, t |-> [k |-> "none"], n |-> 0]
INF == 1000000

\* Interval bounds at p (just after the brace): [ok, lo, hi, p after close]
ParseBounds(s, p, ere) ==
  LET a == Num(s, p)
      hasLo == a.p > p
      b == IF At(s, a.p) = 44 THEN Num(s, a.p + 1) ELSE a
      hi == IF At(s, a.p) # 44 THEN a.v ELSE IF b.p = a.p + 1 THEN INF ELSE b.v
      e == IF At(s, a.p) # 44 THEN a.p ELSE b.p
  IN IF ~hasLo THEN [ok |-> FALSE, lo |-> 0, hi |-> 0, p |-> p]
     ELSE IF ere /\ At(s, e) = 125 THEN [ok |-> hi >= a.v, lo |-> a.v, hi |-> hi, p |-> e + 1]
     ELSE IF ~ere /\ At(s, e) = 92 /\ At(s, e + 1) = 125
          THEN [ok |-> hi >= a.v, lo |-> a.v, hi |-> hi, p |-> e + 2]
     ELSE [ok |-> FALSE, lo |-> 0, hi |-> 0, p |-> p]

\* Repetition operators following the piece x.
RECURSIVE Postfix(_, _, _, _, _)
Postfix(s, p, x, n, ere) ==
  LET c == At(s, p)
      rep(lo, hi, q) == Postfix(s, q, [k |-> "rep", x |-> x, lo |-> lo, hi |-> hi], n, ere)
  IN IF p > Len(s) THEN POk(p, x, n)
     ELSE IF c = 42 THEN rep(0, INF, p + 1)
     ELSE IF ere /\ c = 43 THEN rep(1, INF, p + 1)
     ELSE IF ere /\ c = 63 THEN rep(0, 1, p + 1)
     ELSE IF ere /\ c = 123
          THEN LET b == ParseBounds(s, p + 1, ere)
               IN IF ~b.ok THEN PErr("unsupported") ELSE rep(b.lo, b.hi, b.p)
     ELSE IF ~ere /\ c = 92 /\ At(s, p + 1) = 123
          THEN LET b == ParseBounds(s, p + 2, ere)
               IN IF p + 2 > Len(s) THEN PErr("Unmatched \\{")
                  ELSE IF ~b.ok /\ b.hi < b.lo THEN PErr("Invalid content of \\{\\}")
                  ELSE IF ~b.ok THEN PErr("unsupported") ELSE rep(b.lo, b.hi, b.p)
     ELSE POk(p, x, n)

\* Alternatives / branches / pieces.  depth > 0 inside a group.
RECURSIVE ParseAlt(_, _, _, _, _)
RECURSIVE ParseSeq(_, _, _, _, _, _, _)
ParseAtom(s, p, n, ere, depth, start) ==
  LET c == s[p]
      group(q) ==
        LET r == ParseAlt(s, q, n + 1, ere, depth + 1)
        IN IF ~r.ok THEN r
           ELSE LET close == IF ere THEN At(s, r.p) = 41
                             ELSE At(s, r.p) = 92 /\ At(s, r.p + 1) = 41
                IN IF ~close THEN PErr("Unmatched ( or \\(")
                   ELSE POk(r.p + (IF ere THEN 1 ELSE 2),
                            [k |-> "grp", i |-> n + 1, x |-> r.t], r.n)
  IN CASE c = 92 ->
            LET d == At(s, p + 1)
            IN IF p + 1 > Len(s) THEN PErr("Trailing backslash")
               ELSE IF ~ere /\ d = 40 THEN group(p + 2)
               ELSE IF d >= 49 /\ d <= 57
                    THEN IF d - 48 > n THEN PErr("Invalid back reference")
                         ELSE POk(p + 2, [k |-> "ref", i |-> d - 48], n)
               ELSE IF IsAlnum(d) \/ d \in {39, 96, 60, 62} THEN PErr("unsupported")
               ELSE IF ~ere /\ d \in {123, 125, 124, 43, 63} THEN PErr("unsupported")
               ELSE POk(p + 2, [k |-> "chr", c |-> d], n)
       [] c = 91 -> LET r == ParseSet(s, p + 1)
                    IN IF ~r.ok THEN PErr(r.err) ELSE POk(r.p, r.t, n)
       [] c = 46 -> POk(p + 1, [k |-> "any"], n)
       [] c = 94 /\ (ere \/ start) -> POk(p + 1, [k |-> "bol"], n)
       [] c = 36 /\ (ere \/ p = Len(s) \/ (At(s, p + 1) = 92 /\ At(s, p + 2) = 41)) ->
            POk(p + 1, [k |-> "eol"], n)
       [] ere /\ c = 40 -> group(p + 1)
       [] ere /\ c \in {42, 43, 63, 123} -> PErr("unsupported")
       [] OTHER -> POk(p + 1, [k |-> "chr", c |-> c], n)

ParseSeq(s, p, n, ere, depth, start, acc) ==
  IF \/ p > Len(s)
     \/ (ere /\ s[p] = 124)
     \/ (ere /\ s[p] = 41 /\ depth > 0)
     \/ (~ere /\ s[p] = 92 /\ At(s, p + 1) = 41 /\ depth > 0)
  THEN POk(p, [k |-> "seq", xs |-> acc], n)
  ELSE LET a == ParseAtom(s, p, n, ere, depth, start)
       IN IF ~a.ok THEN a
          ELSE IF a.t.k = "bol" /\ ~ere
               THEN IF At(s, a.p) = 42      \* `^*': star is literal in a BRE
                    THEN ParseSeq(s, a.p + 1, a.n, ere, depth, FALSE,
                                  acc \o <<a.t, [k |-> "chr", c |-> 42]>>)
                    ELSE ParseSeq(s, a.p, a.n, ere, depth, FALSE, Append(acc, a.t))
          ELSE LET q == IF a.t.k \in {"bol", "eol"} THEN a ELSE Postfix(s, a.p, a.t, a.n, ere)
               IN IF ~q.ok THEN q
                  ELSE ParseSeq(s, q.p, q.n, ere, depth, FALSE, Append(acc, q.t))

RECURSIVE AltMore(_, _, _, _, _, _)
AltMore(s, p, n, ere, depth, acc) ==
  LET r == ParseSeq(s, p, n, ere, depth, TRUE, <<>>)
  IN IF ~r.ok THEN r
     ELSE IF ere /\ At(s, r.p) = 124 /\ r.p <= Len(s)
          THEN AltMore(s, r.p + 1, r.n, ere, depth, Append(acc, r.t))
     ELSE IF acc = <<>> THEN r
     ELSE POk(r.p, [k |-> "alt", xs |-> Append(acc, r.t)], r.n)
ParseAlt(s, p, n, ere, depth) == AltMore(s, p, n, ere, depth, <<>>)

\* Compile: [ok, err, t, n]
Compile(s, ere) ==
  LET r == ParseAlt(s, 1, 0, ere, 0)
  IN IF ~r.ok THEN r
     ELSE IF r.p <= Len(s) THEN PErr("Unmatched ) or \\)")
     ELSE r

\* --- matcher -----------------------------------------------------------------
\* M(t, x, i, cs, b0) is the sequence, in order of
\* preference, of results [e, c] (end position, captures) of matching tree t
\* in text x from position i (1-based) with captures cs.  Captures are a
\* sequence of <<from, to>> pairs (<<0, 0>> = unset).  b0: is position 1 the
\* beginning of the line?
RECURSIVE M(_, _, _, _, _)
RECURSIVE MSeq(_, _, _, _, _, _)
RECURSIVE MAlt(_, _, _, _, _, _)
RECURSIVE MRep(_, _, _, _, _, _, _)

One(e, cs) == <<[e |-> e, c |-> cs]>>

RECURSIVE SeqOver(_, _, _, _, _)
SeqOver(rs, xs, j, x, b0) ==      \* each result continues with xs[j..]
  IF rs = <<>> THEN <<>>
  ELSE MSeq(xs, j, x, rs[1].e, rs[1].c, b0) \o SeqOver(Tail(rs), xs, j, x, b0)
RECURSIVE RepOver(_, _, _, _, _, _)
RepOver(rs, t, x, cnt, from, b0) ==
  IF rs = <<>> THEN <<>>
  ELSE (IF rs[1].e = from /\ cnt > t.lo THEN <<>>      \* no empty iteration
        ELSE MRep(t, x, rs[1].e, rs[1].c, cnt, b0, 0))
       \o RepOver(Tail(rs), t, x, cnt, from, b0)

\* Single-character trees are repeated without recursion into M.
Single(t) == t.k \in {"chr", "any", "set"}
Hit(t, ch) == CASE t.k = "chr" -> ch = t.c
                [] t.k = "any" -> ch # 0
                [] t.k = "set" -> IF t.neg THEN ch \notin t.s ELSE ch \in t.s
RECURSIVE RunLen(_, _, _, _)
RunLen(t, x, i, lim) == IF lim = 0 \/ i > Len(x) \/ ~Hit(t, x[i]) THEN 0
                        ELSE 1 + RunLen(t, x, i + 1, lim - 1)

M(t, x, i, cs, b0) ==
  CASE Single(t) -> IF i <= Len(x) /\ Hit(t, x[i]) THEN One(i + 1, cs) ELSE <<>>
    [] t.k = "bol" -> IF i = 1 /\ b0 THEN One(i, cs) ELSE <<>>
    [] t.k = "eol" -> IF i = Len(x) + 1 THEN One(i, cs) ELSE <<>>
    [] t.k = "seq" -> MSeq(t.xs, 1, x, i, cs, b0)
    [] t.k = "alt" -> MAlt(t.xs, 1, x, i, cs, b0)
    [] t.k = "grp" -> LET rs == M(t.x, x, i, cs, b0)
                      IN [j \in DOMAIN rs |->
                            [e |-> rs[j].e, c |-> [rs[j].c EXCEPT ![t.i] = <<i, rs[j].e>>]]]
    [] t.k = "ref" -> LET g == cs[t.i]
                          w == SubSeq(x, g[1], g[2] - 1)
                      IN IF g = <<0, 0>> THEN <<>>
                         ELSE IF IsPrefixAt(w, x, i) THEN One(i + Len(w), cs) ELSE <<>>
    [] t.k = "rep" -> IF Single(t.x)
                      THEN LET r == RunLen(t.x, x, i, t.hi)
                           IN [j \in 1..Max2(0, r - t.lo + 1) |-> [e |-> i + r - j + 1, c |-> cs]]
                      ELSE MRep(t, x, i, cs, 0, b0, 0)

MSeq(xs, j, x, i, cs, b0) ==
  IF j > Len(xs) THEN One(i, cs)
  ELSE SeqOver(M(xs[j], x, i, cs, b0), xs, j + 1, x, b0)

MAlt(xs, j, x, i, cs, b0) ==
  IF j > Len(xs) THEN <<>> ELSE M(xs[j], x, i, cs, b0) \o MAlt(xs, j + 1, x, i, cs, b0)

MRep(t, x, i, cs, cnt, b0, z) ==
  (IF cnt < t.hi THEN RepOver(M(t.x, x, i, cs, b0), t, x, cnt + 1, i, b0) ELSE <<>>)
  \o (IF cnt >= t.lo THEN One(i, cs) ELSE <<>>)

\* The first of the longest results.
RECURSIVE Longest(_, _, _)
Longest(rs, j, best) == IF j > Len(rs) THEN rs[best]
                        ELSE Longest(rs, j + 1, IF rs[j].e > rs[best].e THEN j ELSE best)

NoCaps(n) == [i \in 1..n |-> <<0, 0>>]
NoMatch == [ok |-> FALSE, so |-> 0, eo |-> 0, c |-> <<>>]

\* Leftmost-longest match of re in x at or after position i.
RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(re, x, i, b0) ==
  IF i > Len(x) + 1 THEN NoMatch
  ELSE LET rs == M(re.t, x, i, NoCaps(re.n), b0)
       IN IF rs = <<>> THEN MatchFrom(re, x, i + 1, b0)
          ELSE LET r == Longest(rs, 2, 1)
               IN [ok |-> TRUE, so |-> i, eo |-> r.e, c |-> r.c]

Matches(re, x) == MatchFrom(re, x, 1, TRUE).ok

(* All matches chosen by a substitution, from left to right: after a match   *)
(* the search resumes at its end; an empty match is not allowed directly     *)
(* after the previous match.  `^' matches only at the start of the line.     *)
RECURSIVE AllFrom(_, _, _, _)
AllFrom(re, x, i, prev) ==
  IF i > Len(x) + 1 THEN <<>>
  ELSE LET m == MatchFrom(re, x, i, TRUE)
       IN IF ~m.ok THEN <<>>
          ELSE IF m.eo = m.so /\ m.so = prev THEN AllFrom(re, x, i + 1, 0)
          ELSE <<m>> \o AllFrom(re, x, m.eo, m.eo)
AllMatches(re, x) == AllFrom(re, x, 1, 0)
=============================================================================
