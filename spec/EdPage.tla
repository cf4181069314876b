------------------------------- MODULE EdPage -------------------------------
(* What p, n and l print for one buffer line.                                *)
EXTENDS EdText

\* Length in bytes of the (ed) UTF-8 character at p; 0: not valid.
IsCont(x, p) == p <= Len(x) /\ x[p] >= 128 /\ x[p] < 192
CharLen(x, p) ==
  LET c == x[p]
  IN IF c < 128 THEN 1
     ELSE IF c >= 194 /\ c <= 223 /\ IsCont(x, p + 1) THEN 2
     ELSE IF c >= 224 /\ c <= 239 /\ IsCont(x, p + 1) /\ IsCont(x, p + 2) THEN 3
     ELSE IF c >= 240 /\ c <= 245 /\ IsCont(x, p + 1) /\ IsCont(x, p + 2) /\ IsCont(x, p + 3) THEN 4
     ELSE 0
RECURSIVE Utf8From(_, _)
Utf8From(x, p) == p > Len(x) \/ LET n == CharLen(x, p) IN n > 0 /\ Utf8From(x, p + n)
Utf8Valid(x) == (\A i \in DOMAIN x : x[i] < 128) \/ Utf8From(x, 1)
RECURSIVE CharCount(_, _, _)
CharCount(x, p, u8) == IF p > Len(x) THEN 0
                       ELSE 1 + CharCount(x, p + (IF u8 THEN Max2(1, CharLen(x, p)) ELSE 1), u8)

Octal(c) == <<92, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
IsPlain(c) == c > 31 /\ c < 127 /\ c # 92 /\ c # 36
\* Escape of a byte that is not printed as itself.
Escape(c) == CASE c = 7 -> <<92, 97>> [] c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>>
               [] c = 10 -> <<92, 110>> [] c = 11 -> <<92, 118>> [] c = 12 -> <<92, 102>>
               [] c = 13 -> <<92, 114>> [] c = 36 -> <<92, 36>> [] c = 92 -> <<92, 92>>
               [] OTHER -> Octal(c)
RECURSIVE EscAll(_)
EscAll(x) == IF x = <<>> THEN <<>> ELSE Escape(x[1]) \o EscAll(Tail(x))

(* `l': unambiguous listing of text x from position p with `col' columns     *)
(* used; lines fold with a trailing backslash near the right margin.         *)
RECURSIVE ListFrom(_, _, _, _, _)
ListFrom(x, p, col, cols, u8) ==
  IF p > Len(x) THEN <<36, NL>>
  ELSE LET c == x[p]
           n == IF u8 THEN Max2(1, CharLen(x, p)) ELSE 1
           e == IF IsPlain(c) THEN <<c>> ELSE EscAll(SubSeq(x, p, p + n - 1))
           col1 == col + Len(e)
           left == CharCount(x, p, u8)
           fold == \/ col1 >= cols /\ left > 1
                   \/ ~IsAlnum(c) /\ col1 >= cols - 16 /\ left > 2
                   \/ col1 >= cols - 8 /\ left > 1
       IN IF fold THEN e \o <<92, NL>> \o ListFrom(x, p + n, 0, cols, u8)
          ELSE e \o ListFrom(x, p + n, col1, cols, u8)

\* Rendering of the line with number a and text t, out of `lines' lines.
Render(a, t, io, lines, cols, u8) ==
  LET w == Len(Dec(lines))
      num == IF "n" \in io THEN PadLeft(Dec(a), w) \o <<TAB>> ELSE <<>>
      start == IF "n" \in io THEN ((w \div 8) + 1) * 8 ELSE 0
  IN num \o (IF "l" \in io THEN ListFrom(t, 1, start, cols, u8) ELSE t \o <<NL>>)

\* Lines that occupy exactly one row of the window, whatever the format.
OneRow(t, cols) == /\ 4 * Len(t) + 8 < cols - 16
                   /\ \A i \in DOMAIN t : t[i] >= 32 /\ t[i] < 127
=============================================================================
