------------------------------- MODULE EdText -------------------------------
(* Byte strings.  Text is a sequence of integers 0..255; this module has the *)
(* lexical helpers shared by the whole specification.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NL == 10
SP == 32
TAB == 9

Range2(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

At(s, p) == IF p >= 1 /\ p <= Len(s) THEN s[p] ELSE 0
From(s, p) == SubSeq(s, p, Len(s))
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
IsPunct(c) == c > 32 /\ c < 127 /\ ~IsAlnum(c)
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c

\* First position >= p whose byte is c, or Len+1.
RECURSIVE FindByte(_, _, _)
FindByte(s, c, p) == IF p > Len(s) \/ s[p] = c THEN p ELSE FindByte(s, c, p + 1)

RECURSIVE SkipBlank(_, _)   \* SKIP_WHITESPACE
SkipBlank(s, p) == IF p <= Len(s) /\ IsSpace(s[p]) /\ s[p] # NL
                   THEN SkipBlank(s, p + 1) ELSE p

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN DigitsEnd(s, p + 1) ELSE p

RECURSIVE NumVal(_, _, _, _)
\* Numbers beyond BIG are all alike (TLC integers have 32 bits).
BIG == 100000000
NumVal(s, p, e, acc) == IF p >= e THEN acc
                        ELSE IF acc >= BIG THEN BIG
                        ELSE NumVal(s, p + 1, e, 10 * acc + (s[p] - 48))

\* [v |-> value, p |-> next position] of the decimal number at p.
Num(s, p) == LET e == DigitsEnd(s, p) IN [v |-> NumVal(s, p, e, 0), p |-> e]

RECURSIVE Dec(_)            \* decimal rendering
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n)
          ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

PadLeft(s, w) == [i \in 1..Max2(0, w - Len(s)) |-> SP] \o s

RECURSIVE JoinAll(_)        \* concatenate a sequence of byte strings
JoinAll(ss) == IF ss = <<>> THEN <<>>
               ELSE IF Len(ss) = 1 THEN ss[1]
               ELSE LET h == Len(ss) \div 2
                    IN JoinAll(SubSeq(ss, 1, h)) \o JoinAll(SubSeq(ss, h + 1, Len(ss)))

\* Split bytes into lines, each with its newline; the last may lack one.
Lines(s) == LET e == SetToSortSeq({i \in DOMAIN s : s[i] = NL} \cup (IF s = <<>> THEN {} ELSE {Len(s)}), <)
            IN TLCEval([k \in DOMAIN e |-> SubSeq(s, IF k = 1 THEN 1 ELSE e[k - 1] + 1, e[k])])
EndsNL(s) == Len(s) > 0 /\ s[Len(s)] = NL
Chomp(s) == IF EndsNL(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
HasByte(s, c) == \E i \in DOMAIN s : s[i] = c

\* Number of consecutive backslashes ending just before position p.
RECURSIVE EscBefore(_, _)
EscBefore(s, p) == IF p > 1 /\ s[p - 1] = 92 THEN 1 + EscBefore(s, p - 1) ELSE 0

IsPrefixAt(pre, s, p) == /\ p + Len(pre) - 1 <= Len(s)
                         /\ SubSeq(s, p, p + Len(pre) - 1) = pre

RECURSIVE LexLE(_, _)
LexLE(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLE(Tail(a), Tail(b))
=============================================================================
