------------------------------- MODULE EdCore -------------------------------
(* The editor state and the effect of one command line, as pure functions    *)
(* from states to states.  A state is a record s; a command consumes bytes   *)
(* of s.inp from position s.p, appends what ed prints to s.out and leaves a  *)
(* return code in s.rc:                                                      *)
(*   "ok"    done, s.io holds the print request (subset of {"p","l","n"})    *)
(*   "ERR"   refused, message in s.err     "EMOD"  unsaved-change warning    *)
(*   "EOF"   quit    "NEXT"/"PREV"  file list    "FATAL"    "INT" interrupt  *)
(*   "HUP"   hangup  "UNSUP" outside of what this specification describes    *)
EXTENDS EdRegex, EdPage, TLC

BadRc(s) == s.rc # "ok"
Err(s, msg) == [s EXCEPT !.rc = "ERR", !.err = msg]
Unsup(s) == [s EXCEPT !.rc = "UNSUP"]
Cur(s) == At(s.inp, s.p)
Nxt(s) == At(s.inp, s.p + 1)
Adv(s, k) == [s EXCEPT !.p = @ + k]
Out(s, b) == [s EXCEPT !.out = @ \o b]
OutLine(s, b) == Out(s, b \o <<NL>>)

InGlobal(s) == s.glob # 0
\* Input comes from the list of a global command (not from a macro or stdin).
ListInput(s) == s.glob # 0 /\ Len(s.mac) = s.gsp

(***************************************************************************)
(* Buffer primitives.                                                      *)
(***************************************************************************)
Dollar(s) == Len(s.buf)
Snap(s) == [ok |-> TRUE, buf |-> s.buf, dot |-> s.dot, mod |-> s.mod,
            bin |-> s.bin, nla |-> s.nla, u8 |-> s.u8]
NoSnap == [ok |-> FALSE, buf |-> <<>>, dot |-> 0, mod |-> FALSE, bin |-> FALSE,
           nla |-> FALSE, u8 |-> TRUE]
\* A buffer-changing command starts: remember the state that u restores.
\* (A global command does this once, for all that its list does.)
BeginChange(s) == IF InGlobal(s) THEN s ELSE [s EXCEPT !.u = Snap(s), !.uq = FALSE]

NewNodes(s, ts) == TLCEval([i \in 1..Len(ts) |-> [id |-> s.nid + i - 1, t |-> ts[i]]])
\* Insert lines with texts ts after line `after'; current line: last inserted.
Insert(s, after, ts) ==
  [s EXCEPT !.buf = SubSeq(@, 1, after) \o NewNodes(s, ts) \o From(@, after + 1),
            !.nid = @ + Len(ts), !.dot = after + Len(ts),
            !.u8 = @ /\ \A i \in DOMAIN ts : Utf8Valid(ts[i]),
            !.uq = @ \/ ts # <<>>]

\* Lines that leave their place are not visited by a running global command.
DropQueue(s, from, to) ==
  IF ~InGlobal(s) \/ s.gq = <<>> THEN s
  ELSE LET gone == {s.buf[i].id : i \in from..to}
       IN [s EXCEPT !.gq = SelectSeq(@, LAMBDA x : x \notin gone)]

Delete(s, from, to) ==
  LET s1 == DropQueue(s, from, to)
  IN [s1 EXCEPT !.buf = SubSeq(@, 1, from - 1) \o From(@, to + 1),
                !.nla = IF to = Dollar(s) THEN FALSE ELSE @,
                !.dot = from - 1, !.mod = TRUE, !.uq = TRUE]

\* Address of the line with identity id; 0 stands for the head (line 0).
AddrOf(s, id) ==
  IF id = 0 THEN 0
  ELSE LET is == {i \in 1..Dollar(s) : s.buf[i].id = id}
       IN IF is # {} THEN CHOOSE i \in is : TRUE
          ELSE IF s.buf = <<>> THEN 0 ELSE -1

Text(s, from, to) == TLCEval([i \in 1..(to - from + 1) |-> s.buf[from + i - 1].t])

\* Bytes that writing lines from..to produces: every line with its newline,
\* but the buffer's last line without, if the data is binary and had none.
Bytes(s, from, to) ==
  IF from = 0 \/ to < from THEN <<>>
  ELSE LET full == JoinAll([i \in 1..(to - from + 1) |-> s.buf[from + i - 1].t \o <<NL>>])
       IN IF to = Dollar(s) /\ s.bin /\ s.nla THEN SubSeq(full, 1, Len(full) - 1) ELSE full

(***************************************************************************)
(* Reading a stream (file, register, command output) after line `after'.   *)
(* Result: state and the size that is reported.                            *)
(***************************************************************************)
ReadStream(s, after, data) ==
  LET ls == Lines(data)
      atEnd == after = Dollar(s)
      missing == data # <<>> /\ ~EndsNL(data)
      bin == s.bin \/ HasByte(data, 0)
      nla == IF atEnd THEN missing ELSE s.nla
      size == Len(data) + (IF missing THEN 1 ELSE 0)
              - (IF bin /\ atEnd /\ nla THEN 1 ELSE 0)
      s1 == Insert(s, after, TLCEval([i \in 1..Len(ls) |-> Chomp(ls[i])]))
  IN [s |-> [s1 EXCEPT !.bin = bin, !.nla = nla], size |-> size]

(***************************************************************************)
(* Input lines.                                                            *)
(***************************************************************************)
\* Next line of the innermost input: macro, else standard input.
\* got = FALSE at end of input.
Got(s, l) == [got |-> TRUE, l |-> l,
              s |-> [s EXCEPT !.u8 = @ /\ Utf8Valid(l), !.ib = @ \/ HasByte(l, 0)]]
GetLine(s) ==
  IF s.mac # <<>>
  THEN LET k == Len(s.mac)
           f == s.mac[k]
       IN IF f.p > Len(f.ls) THEN [got |-> FALSE, s |-> s, l |-> <<>>]
          ELSE Got([s EXCEPT !.mac[k].p = @ + 1], f.ls[f.p])
  ELSE IF s.ip > Len(s.in) THEN [got |-> FALSE, s |-> s, l |-> <<>>]
  ELSE Got([s EXCEPT !.ip = @ + 1], s.in[s.ip])

\* get_extended_line: [ok, s, l] - the rest of the input from s.p up to the
\* newline, continued with further input lines while the newline is escaped.
RECURSIVE ExtLine(_, _, _, _)
ExtLine(s, l, nonl, escape) ==
  LET n == Len(l)
      k == EscBefore(l, n)
      more == IF nonl THEN n > 1 /\ l[n - 1] = 92 ELSE k % 2 = 1
      cut == IF escape THEN (k + 1) \div 2 ELSE 1
      l1 == SubSeq(l, 1, n - cut - 1) \o <<NL>>
  IN IF ~more THEN [ok |-> TRUE, s |-> s, l |-> IF nonl THEN SubSeq(l, 1, n - 1) ELSE l]
     ELSE LET g == GetLine(s)
          IN IF ~g.got THEN [ok |-> FALSE, s |-> [s EXCEPT !.rc = "ERR"], l |-> <<>>]
             ELSE IF ~EndsNL(g.l)
                  THEN [ok |-> FALSE, s |-> Err(g.s, "End-of-file unexpected"), l |-> <<>>]
             ELSE ExtLine(g.s, l1 \o g.l, nonl, escape)
ToNL(s) == FindByte(s.inp, NL, s.p)
Extended(s, nonl, escape) ==
  ExtLine(s, SubSeq(s.inp, s.p, ToNL(s)), nonl, escape)

(***************************************************************************)
(* Patterns.                                                               *)
(***************************************************************************)
NoPat == [has |-> FALSE, p |-> <<>>]
Pat(p) == [has |-> TRUE, p |-> p]

\* Position of the end of a bracket expression starting after `[' (0: none).
RECURSIVE BrEnd(_, _)
BrEnd(s, p) ==
  IF p > Len(s) \/ s[p] = NL THEN 0
  ELSE IF s[p] = 93 THEN p
  ELSE IF s[p] = 91 /\ At(s, p + 1) \in {46, 58, 61}
  THEN LET d == s[p + 1]
           c == {q \in (p + 3)..Len(s) : s[q] = 93 /\ s[q - 1] = d}
           e == IF c = {} THEN 0 ELSE CHOOSE q \in c : \A r \in c : q <= r
       IN IF e = 0 \/ FindByte(s, NL, p) < e THEN 0 ELSE BrEnd(s, e + 1)
  ELSE BrEnd(s, p + 1)
BracketEnd(s, p) == LET q == IF At(s, p) = 94 THEN p + 1 ELSE p
                    IN BrEnd(s, IF At(s, q) = 93 THEN q + 1 ELSE q)

\* Delimited pattern from p: [err, e] with e the position of the delimiter
\* (or of the newline).
RECURSIVE PatEnd(_, _, _)
PatEnd(s, p, dc) ==
  LET c == At(s, p)
  IN IF c = NL \/ (c = dc /\ ~(dc = 92 /\ At(s, p + 1) = dc)) THEN [err |-> "", e |-> p]
     ELSE IF c = 91 THEN LET b == BracketEnd(s, p + 1)
                         IN IF b = 0 THEN [err |-> "Brackets ([]) unbalanced", e |-> p]
                            ELSE PatEnd(s, b + 1, dc)
     ELSE IF c = 92 THEN IF At(s, p + 1) = NL THEN [err |-> "Backslash (\\) unexpected", e |-> p]
                         ELSE PatEnd(s, p + 2, dc)
     ELSE PatEnd(s, p + 1, dc)

(* The pattern delimited by dc at s.p, which becomes the remembered search   *)
(* or substitution pattern; an empty one denotes the remembered pattern.     *)
(* Result: [s, pat]; on return s.p is at the closing delimiter or newline.   *)
GetPattern(s, dc, subst, useSearch) ==
  LET s1 == IF dc = NL THEN s ELSE Adv(s, 1)
      empty == dc = NL \/ Cur(s1) = NL
               \/ (IF dc = 92 THEN Cur(s1) = dc /\ Nxt(s1) # dc ELSE Cur(s1) = dc)
      old == IF subst THEN (IF (dc # NL /\ s.psrch.has) \/ useSearch THEN s.psrch ELSE s.psub)
             ELSE IF s.psrch.has THEN s.psrch ELSE s.psub
      e == PatEnd(s1.inp, s1.p, dc)
      txt == SubSeq(s1.inp, s1.p, e.e - 1)
      re == Compile(txt, s.opt.ere)
      s2 == [s1 EXCEPT !.p = e.e]
  IN IF IsSpace(dc) /\ dc # NL THEN [s |-> Err(s, "Invalid pattern delimiter"), pat |-> NoPat]
     ELSE IF empty
     THEN LET s3 == IF subst THEN IF s.psub.has THEN s1 ELSE [s1 EXCEPT !.psub = old]
                    ELSE IF s.psrch.has THEN s1 ELSE [s1 EXCEPT !.psrch = old]
          IN IF old.has THEN [s |-> s3, pat |-> old]
             ELSE [s |-> Err(s1, "No previous pattern"), pat |-> NoPat]
     ELSE IF e.err # "" THEN [s |-> Err(s2, e.err), pat |-> NoPat]
     ELSE IF ~re.ok THEN IF re.err = "unsupported" THEN [s |-> Unsup(s2), pat |-> NoPat]
                         ELSE [s |-> Err(s2, re.err), pat |-> NoPat]
     ELSE [s |-> IF subst THEN [s2 EXCEPT !.psub = Pat(txt)] ELSE [s2 EXCEPT !.psrch = Pat(txt)],
           pat |-> Pat(txt)]

\* Address of the next line matching re, from dot, wrapping around; 0: none.
RECURSIVE SearchFrom(_, _, _, _, _)
SearchFrom(s, re, fwd, a, left) ==
  IF left = 0 THEN 0
  ELSE LET b == IF fwd THEN (IF a = Dollar(s) THEN 0 ELSE a + 1)
                ELSE (IF a = 0 THEN Dollar(s) ELSE a - 1)
       IN IF b # 0 /\ Matches(re, s.buf[b].t) THEN b
          ELSE SearchFrom(s, re, fwd, b, left - 1)

(***************************************************************************)
(* Addresses.                                                              *)
(***************************************************************************)
\* One address, starting from value a: [s, a, got].
RECURSIVE Offsets(_, _)
Offsets(s, a) ==
  LET c == Cur(s)
      sgn == IF c = 43 THEN 1 ELSE -1
      n == Num(s.inp, s.p)
      n1 == Num(s.inp, s.p + 1)
      q == SkipBlank(s.inp, s.p)
  IN IF IsDigit(c) THEN Offsets([s EXCEPT !.p = n.p], a + n.v)
     ELSE IF c \in {43, 45, 94}
          THEN IF IsDigit(Nxt(s)) THEN Offsets([s EXCEPT !.p = n1.p], a + sgn * n1.v)
               ELSE Offsets(Adv(s, 1), a + sgn)
     ELSE IF c \in {SP, TAB}
          THEN IF IsDigit(At(s.inp, q))
               THEN LET m == Num(s.inp, q) IN Offsets([s EXCEPT !.p = m.p], a + m.v)
               ELSE IF q = s.p THEN [s |-> s, a |-> a]
               ELSE Offsets([s EXCEPT !.p = q], a)
     ELSE [s |-> s, a |-> a]

InBuffer(s, a) == 0 <= a /\ a <= Dollar(s)

LineAddress(s, a) ==
  LET c == Cur(s)
  IN CASE IsDigit(c) -> LET n == Num(s.inp, s.p) IN [s |-> [s EXCEPT !.p = n.p], a |-> n.v]
       [] c = 36 -> [s |-> Adv(s, 1), a |-> Dollar(s)]
       [] c = 46 -> [s |-> Adv(s, 1), a |-> a]
       [] c \in {47, 63} ->
            IF ~InBuffer(s, a) THEN [s |-> Err(s, "Address out of range"), a |-> a]
            ELSE LET g == GetPattern([s EXCEPT !.dot = a], c, FALSE, FALSE)
                 IN IF BadRc(g.s) THEN [s |-> g.s, a |-> a]
                    ELSE LET b == SearchFrom(g.s, Compile(g.pat.p, s.opt.ere), c = 47, a, Dollar(s) + 1)
                             s2 == IF Cur(g.s) = c THEN Adv(g.s, 1) ELSE g.s
                         IN IF b = 0 THEN [s |-> Err(g.s, "No match"), a |-> a]
                            ELSE [s |-> s2, a |-> b]
       [] c = 39 ->
            LET m == Nxt(s)
                s1 == Adv(s, 2)
                b == AddrOf(s, s.mk[m])
            IN IF ~IsLower(m) THEN [s |-> Err(s1, "Invalid address mark"), a |-> a]
               ELSE IF b < 0 THEN [s |-> Err(s1, "Address out of range"), a |-> a]
               ELSE [s |-> s1, a |-> b]
       [] OTHER -> [s |-> s, a |-> a]

NextAddress(s, a) ==
  LET s1 == [s EXCEPT !.p = SkipBlank(s.inp, s.p)]
      r == LineAddress(s1, a)
  IN IF BadRc(r.s) THEN [s |-> r.s, a |-> a, got |-> FALSE]
     ELSE LET o == Offsets(r.s, r.a)
          IN [s |-> o.s, a |-> o.a, got |-> o.s.p # s1.p]

IsSep(c) == c \in {37, 44, 59}
RECURSIVE AddrLoop(_, _, _, _, _)
AddrLoop(s, ad, first, second, dot) ==
  LET c == Cur(s)
      sep == IsSep(c)
      semi == c = 59
      dot1 == IF sep /\ ad > 0 /\ semi THEN second ELSE dot
      first1 == IF ~sep THEN first
                ELSE IF ad > 0 THEN second
                ELSE IF semi THEN dot ELSE 1
      second1 == IF sep /\ ad = 0 THEN Dollar(s) ELSE second
      ad1 == IF sep /\ ad = 0 THEN 2 ELSE ad
      n == NextAddress(IF sep THEN Adv(s, 1) ELSE s, dot1)
  IN IF BadRc(n.s) THEN n
     ELSE LET second2 == IF n.got THEN n.a ELSE second1
              ad2 == IF n.got THEN ad1 + 1 ELSE ad1
          IN IF IsSep(Cur(n.s)) THEN AddrLoop(n.s, ad2, first1, second2, dot1)
             ELSE [s |-> n.s, ad |-> ad2, first |-> IF ad2 < 2 THEN second2 ELSE first1,
                   second |-> second2, dot |-> dot1]

\* Parse the address prefix of a command: sets ad, a1, a2 and dot.
AddressRange(s0) ==
  LET s == [s0 EXCEPT !.ad = 0, !.p = SkipBlank(s0.inp, s0.p)]
      r == AddrLoop(s, 0, s.dot, s.dot, s.dot)
      roll(a) == IF a = -1 THEN Dollar(s) ELSE IF a = Dollar(s) + 1 THEN 0 ELSE a
  IN IF BadRc(r.s) THEN r.s
     ELSE LET f == roll(r.first)
              e == roll(r.second)
          IN IF ~InBuffer(s, f) \/ ~InBuffer(s, e) \/ ~InBuffer(s, r.dot)
             THEN Err([r.s EXCEPT !.ad = Min2(r.ad, 2)], "Address out of range")
             ELSE [r.s EXCEPT !.ad = Min2(r.ad, 2), !.a1 = f, !.a2 = e, !.dot = r.dot]

\* Default range and check (is_valid_range).
ValidRange(s, from, to) ==
  LET s1 == IF s.ad = 0 THEN [s EXCEPT !.a1 = from, !.a2 = to] ELSE s
  IN IF (s1.a1 < 1 \/ s1.a1 > Dollar(s) \/ s1.a2 < 1 \/ s1.a2 > Dollar(s)) /\ s.rr < 0
     THEN Err(s1, "Address out of range")
     ELSE IF s1.a1 > s1.a2 THEN Err(s1, "Invalid address range")
     ELSE s1
\* As above, but an empty buffer is allowed if no address is given.
ValidOrEmpty(s, from, to) ==
  IF s.ad = 0 /\ s.buf = <<>> THEN [s EXCEPT !.a1 = 0, !.a2 = 0]
  ELSE ValidRange(s, from, to)

(***************************************************************************)
(* Command suffixes and arguments.                                         *)
(***************************************************************************)
SfxName(c) == CASE c = 112 -> "p" [] c = 108 -> "l" [] c = 110 -> "n"
RECURSIVE SuffixTo(_, _)     \* print suffixes up to the newline
SuffixTo(s, acc) ==
  LET c == Cur(s)
  IN IF c = NL THEN [Adv(s, 1) EXCEPT !.sfx = acc]
     ELSE IF c \in {112, 108, 110} THEN SuffixTo(Adv(s, 1), acc \cup {SfxName(c)})
     ELSE Err(s, "Command suffix unexpected")
Suffix(s) == LET r == SuffixTo(s, {}) IN IF BadRc(r) THEN r ELSE [r EXCEPT !.io = @ \cup r.sfx]

NoAddr(s) == IF s.ad > 0 THEN Err(s, "Address unexpected") ELSE s

\* Name of a plain file argument: [s, n].
FileArg(s) ==
  LET x == Extended(s, TRUE, FALSE)
  IN IF ~x.ok THEN [s |-> x.s, n |-> <<>>]
     ELSE IF s.opt.red /\ (x.l = <<46, 46>> \/ HasByte(x.l, 47))
          THEN [s |-> Err(x.s, "Access restricted to working directory"), n |-> <<>>]
     ELSE [s |-> [x.s EXCEPT !.p = IF x.s.ip = s.ip /\ x.s.mac = s.mac THEN ToNL(s) + 1
                                   ELSE Len(s.inp) + 1],
           n |-> x.l]

\* Shell command expansion: [s, c] with c the command without its leading `!'.
RECURSIVE ShExpand(_, _, _, _, _)
ShExpand(s, x, p, acc, subs) ==
  IF p > Len(x) THEN [c |-> acc, subs |-> subs]
  ELSE IF x[p] = 92 /\ At(x, p + 1) = 37 THEN ShExpand(s, x, p + 2, Append(acc, 37), subs)
  ELSE IF x[p] = 37
       THEN IF At(x, p + 1) = 45
            THEN ShExpand(s, x, p + 2,
                          acc \o (IF s.opt.script # <<>> THEN s.opt.script
                                  ELSE <<115, 116, 100, 105, 110>>), TRUE)
            ELSE ShExpand(s, x, p + 1, acc \o s.fn.n, TRUE)
  ELSE ShExpand(s, x, p + 1, Append(acc, x[p]), subs)

ShellArg(s) ==
  IF s.opt.red THEN [s |-> Err(s, "Shell access restricted"), c |-> <<>>]
  ELSE
  LET x == IF ListInput(s) THEN [ok |-> TRUE, s |-> s, l |-> SubSeq(s.inp, s.p, ToNL(s) - 1)]
           ELSE Extended(s, TRUE, FALSE)
      bangs == At(x.l, 2) = 33        \* x.l[1] is `!'
      cmd == IF bangs THEN s.shp.p \o From(x.l, 3) ELSE x.l
      r == ShExpand(s, cmd, 1, <<>>, bangs)
      s1 == [x.s EXCEPT !.p = IF x.s.ip = s.ip /\ x.s.mac = s.mac THEN ToNL(s) + 1
                              ELSE Len(s.inp) + 1]
      s2 == [s1 EXCEPT !.shp = Pat(cmd)]
  IN IF ~x.ok THEN [s |-> x.s, c |-> <<>>]
     ELSE IF bangs /\ ~s.shp.has THEN [s |-> Err(s1, "No previous shell command"), c |-> <<>>]
     ELSE [s |-> IF r.subs THEN OutLine(s2, Tail(r.c)) ELSE s2, c |-> Tail(r.c)]
=============================================================================
