------------------------------- MODULE EdExec -------------------------------
(* The commands of ed.  Exec(s) runs the command at s.p of the input s.inp,  *)
(* whose addresses are already in s.ad, s.a1, s.a2.  Global commands and     *)
(* macros run other commands, hence the recursion.                           *)
EXTENDS EdFile

Scripted(s) == s.opt.scr
Verbose(s) == s.verb
StatusOK(s) == IF s.opt.scr \/ s.opt.eoe THEN s ELSE [s EXCEPT !.status = 0]
PutSize(s, n) == IF s.opt.scr THEN s ELSE OutLine(s, Dec(n))
PutBang(s) == IF s.opt.scr THEN s ELSE OutLine(s, <<33>>)
Ok(s) == [s EXCEPT !.io = {}]       \* command that requests no printing

(***************************************************************************)
(* Printing.                                                               *)
(***************************************************************************)
RowOf(s, a) == IF a = 0 THEN <<>> ELSE s.buf[a].t
RenderLine(s, a) == Render(a, RowOf(s, a), s.io, Dollar(s), s.opt.cols, s.u8)
AllOneRow(s, from, to) == \A a \in from..to : OneRow(RowOf(s, a), s.opt.cols)

EmptyRing(R) == [i \in 1..R |-> [a |-> 0, x |-> <<>>]]

\* Print lines from..to; the last one becomes the current line.
PlainDisplay(s, from, to) ==
  LET rs == [i \in 1..(to - from + 1) |-> RenderLine(s, from + i - 1)]
      n == to - from + 1
      R == s.pg.wsr - 1
      ring0 == IF s.pg.rows # s.pg.wsr THEN EmptyRing(R) ELSE s.pg.ring
      ring == [j \in 1..R |->
                 IF j > n THEN ring0[j]
                 ELSE LET i == ((n - j) \div R) * R + j
                      IN [a |-> from + i - 1, x |-> rs[i]]]
      k == ((n - 1) % R) + 1
      s1 == [Out(s, JoinAll(rs)) EXCEPT !.dot = to]
  IN IF ~s.opt.scroll THEN s1
     ELSE [s1 EXCEPT !.pg = [@ EXCEPT !.rows = s.pg.wsr, !.ring = ring, !.ri = k % R,
                                      !.prev = from + n - k, !.addr = from + n - k,
                                      !.bad = @ \/ ~AllOneRow(s, from, to)]]

\* Fill the window with the lines a..to.
RECURSIVE Fill(_, _, _, _)
Fill(s, a, to, f) ==        \* f: [ring, row, wraps, full, n]
  IF f.full \/ a > to THEN f
  ELSE LET R == s.pg.wsr - 1
           row == (f.row + 1) % R
           wraps == f.wraps \/ row = 0
       IN Fill(s, a + 1, to,
               [f EXCEPT !.ring = [@ EXCEPT ![f.row + 1] = [a |-> a, x |-> RenderLine(s, a)]],
                         !.row = row, !.wraps = wraps, !.n = @ + 1,
                         !.full = IF "HF" \in s.io THEN row = (f.fill + 1) % R
                                  ELSE wraps /\ "ZB" \notin s.io])

RECURSIVE Scroll(_, _, _)
Scroll(s0, from, to) ==
  LET s == IF s0.ad > 0 THEN [s0 EXCEPT !.pg.prev = 0] ELSE s0
      R == s.pg.wsr - 1
      resized == s.pg.rows # s.pg.wsr
      hf == "HF" \in s.io
      row0 == IF hf /\ ~resized THEN s.pg.ri ELSE 0
      f == Fill(s, from, to,
                [ring |-> IF resized THEN EmptyRing(R) ELSE s.pg.ring, row |-> row0,
                 wraps |-> row0 # 0, full |-> FALSE, n |-> 0,
                 fill |-> (row0 + (s.pg.wsr \div 2)) % R])
      s1 == [s EXCEPT !.pg = [@ EXCEPT !.rows = s.pg.wsr, !.ring = f.ring, !.ri = f.row]]
      again(io, a, b) == Scroll([s1 EXCEPT !.io = io, !.pg.prev = 0], a, b)
      first == IF hf \/ f.wraps THEN f.row ELSE 0
      last == IF hf THEN (IF f.row # 0 THEN f.row - 1 ELSE R - 1)
              ELSE IF f.wraps THEN (IF first # 0 THEN first - 1 ELSE R - 1) ELSE f.row - 1
      n == IF last >= first THEN last - first + 1 ELSE R + 1 - (first - last)
      rows == JoinAll([i \in 1..n |-> f.ring[((first + i - 1) % R) + 1].x])
      top == f.ring[first + 1].a
      s2 == IF f.n = 0 THEN s1
            ELSE [(IF s1.pg.hid THEN s1 ELSE Out(s1, rows))
                    EXCEPT !.pg.prev = top, !.pg.addr = top]
  IN IF s.buf = <<>> THEN s0
     ELSE IF "ZB" \in s.io /\ s.io \cap {"HB", "HF"} = {} /\ s.ad = 0 /\ s.pg.prev = 1
     THEN Err(s, "Address out of range")
     ELSE IF ~s.opt.scroll \/ s.pg.bad \/ ~AllOneRow(s, from, to) THEN Unsup(s)
     ELSE IF "ZF" \in s.io /\ to = Dollar(s) /\ ~f.wraps /\ from # 1
     THEN again((s.io \cup {"ZB"}) \ {"ZF", "HF"}, Max2(1, Dollar(s) - s.pg.wsr + 2), Dollar(s))
     ELSE IF "ZB" \in s.io /\ from = 1 /\ ~f.wraps /\ to # Dollar(s)
     THEN again((s.io \cup {"ZF"}) \ {"ZB", "HB"}, 1, Min2(Dollar(s), s.pg.wsr - 1))
     ELSE [s2 EXCEPT !.dot = from + f.n - 1]

\* Print per s.io; the command requests nothing further.
Display(s, from, to) ==
  IF s.buf = <<>> THEN Ok(s)
  ELSE LET r == IF s.io \cap {"ZF", "ZB"} # {} THEN Scroll(s, from, to)
                ELSE PlainDisplay(s, from, to)
       IN Ok(r)

(***************************************************************************)
(* Line editing.                                                           *)
(***************************************************************************)
\* Text input for a, c and i, up to a line with a single period.
RECURSIVE AppendLines(_)
AppendLines(s) ==
  LET put(t, b) == [Insert(t, t.dot, <<b>>)
                      EXCEPT !.mod = TRUE, !.bin = @ \/ t.ib,
                             !.nla = IF t.dot = Dollar(t) THEN FALSE ELSE @]
      g == GetLine(s)
      e == ToNL(s)
  IN IF ListInput(s)
     THEN IF s.p > Len(s.inp) THEN s
          ELSE IF Cur(s) = 46 /\ Nxt(s) = NL THEN Adv(s, 1)
          ELSE AppendLines([put(s, SubSeq(s.inp, s.p, e - 1)) EXCEPT !.p = e + 1])
     ELSE IF ~g.got THEN s
     ELSE IF ~EndsNL(g.l) THEN Err(g.s, "End-of-file unexpected")
     ELSE IF g.l = <<46, NL>> THEN g.s
     ELSE AppendLines(put(g.s, Chomp(g.l)))
InputText(s, after) == AppendLines([s EXCEPT !.dot = after, !.ib = FALSE])

ACmd(s) ==
  LET s1 == Suffix(s)
  IN IF BadRc(s1) THEN s1 ELSE InputText(BeginChange(s1), s1.a2)

ICmd(s) ==
  LET a == Max2(1, s.a2)
      s1 == Suffix([s EXCEPT !.a2 = a])
      r == InputText(BeginChange(s1), a - 1)
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(r) THEN r
     ELSE IF r.dot = a - 1 THEN [r EXCEPT !.dot = Min2(Dollar(r), a)] ELSE r

CCmd(s) ==
  LET s1 == ValidRange([s EXCEPT !.a1 = Max2(1, @), !.a2 = Max2(1, @)], s.dot, s.dot)
      s2 == Suffix(s1)
      s3 == Delete(BeginChange(s2), s2.a1, s2.a2)
      r == InputText(s3, s3.dot)
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s2) THEN s2
     ELSE IF BadRc(r) THEN r
     ELSE IF r.dot < s2.a1 THEN [r EXCEPT !.dot = Min2(Dollar(r), s2.a1)] ELSE r

\* Registers: what lines a1..a2 put there.
RegData(s, i) == s.reg[i].d
RegPut(s, i, d) == [s EXCEPT !.reg[i] = [ex |-> TRUE, d |-> d]]
RegTruncate(s, i) == IF s.reg[i].ex THEN RegPut(s, i, <<>>) ELSE s
RegWrite(s, i, from, to, app) ==
  IF from = 0 THEN IF app THEN s ELSE RegTruncate(s, i)
  ELSE RegPut(s, i, (IF app THEN RegData(s, i) ELSE <<>>) \o Bytes(s, from, to))

DCmd(s) ==
  LET s1 == ValidRange(s, s.dot, s.dot)
      s2 == Suffix(s1)
      s3 == RegWrite(BeginChange(s2), 10, s2.a1, s2.a2, FALSE)
      s4 == Delete(s3, s3.a1, s3.a2)
      s5 == IF s4.dot < Dollar(s4) THEN [s4 EXCEPT !.dot = @ + 1] ELSE s4
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s2) THEN s2
     ELSE IF s5.buf = <<>> THEN [s5 EXCEPT !.bin = FALSE] ELSE s5

JCmd(s) ==
  LET s1 == ValidOrEmpty(s, s.dot, s.dot + 1)
      s2 == Suffix(s1)
      s3 == BeginChange(s2)
      t == JoinAll(Text(s3, s3.a1, s3.a2))
      s4 == Insert(Delete(s3, s3.a1, s3.a2), s3.a1 - 1, <<t>>)
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s2) THEN s2
     ELSE IF s3.a1 = s3.a2 THEN s3 ELSE s4

KCmd(s) ==
  LET m == Cur(s)
      s1 == Suffix(Adv(s, 1))
  IN IF BadRc(s1) THEN s1
     ELSE IF ~IsLower(m) THEN Err(s1, "Invalid address mark")
     ELSE [s1 EXCEPT !.mk[m] = IF s1.a2 = 0 THEN 0 ELSE s1.buf[s1.a2].id]

\* Destination of m and t: [s, addr].
DestAddr(s) ==
  LET app == Nxt(s) = 62
      q == IF app THEN s.p + 2 ELSE s.p + 1
      d == At(s.inp, q)
      r == AddressRange(s)
  IN IF Cur(s) = 62
     THEN [s |-> [s EXCEPT !.rw = IF IsDigit(d) THEN d - 48 ELSE 10, !.ra = app,
                           !.p = IF IsDigit(d) THEN q + 1 ELSE q], addr |-> 0]
     ELSE [s |-> [r EXCEPT !.a1 = s.a1, !.a2 = s.a2], addr |-> r.a2]

MoveLines(s, from, to, after) ==
  LET n == to - from + 1
      s1 == DropQueue(s, from, to)
      blk == SubSeq(s.buf, from, to)
      b == IF after < from
           THEN SubSeq(s.buf, 1, after) \o blk \o SubSeq(s.buf, after + 1, from - 1) \o From(s.buf, to + 1)
           ELSE SubSeq(s.buf, 1, from - 1) \o SubSeq(s.buf, to + 1, after) \o blk \o From(s.buf, after + 1)
  IN IF after = from - 1 \/ after = to
     THEN [s1 EXCEPT !.dot = to, !.mod = TRUE]
     ELSE [s1 EXCEPT !.buf = b, !.dot = after + (IF from > after THEN n ELSE 0),
                     !.mod = TRUE, !.uq = TRUE]

\* Read register i after line `after'.
RegRead(s, i, after) ==
  LET r == ReadStream([s EXCEPT !.ib = FALSE], after, RegData(s, i))
  IN IF ~s.reg[i].ex THEN s
     ELSE IF r.size > 0 THEN [r.s EXCEPT !.mod = TRUE] ELSE r.s

\* Missing final newlines are supplied when registers are joined.
WithNL(d) == IF d = <<>> \/ EndsNL(d) THEN d ELSE Append(d, NL)
InterCopy(s, r, w, app) ==
  IF r = w THEN IF s.reg[r].ex /\ app THEN Err(s, "Cannot append register to itself") ELSE s
  ELSE IF ~s.reg[r].ex THEN IF app THEN s ELSE RegTruncate(s, w)
  ELSE RegPut(s, w, (IF app THEN RegData(s, w) ELSE <<>>) \o WithNL(RegData(s, r)))
InterMove(s, r, w, app) ==
  IF r = w THEN s
  ELSE IF ~s.reg[r].ex THEN IF app THEN s ELSE RegTruncate(s, w)
  ELSE IF ~s.reg[w].ex
  THEN [s EXCEPT !.reg = [@ EXCEPT ![w] = s.reg[r], ![r] = [ex |-> FALSE, d |-> <<>>]]]
  ELSE RegTruncate(RegPut(s, w, (IF app THEN RegData(s, w) ELSE <<>>) \o WithNL(RegData(s, r))), r)

MCmd(s) ==
  LET s1 == ValidRange(s, s.dot, s.dot)
      d == DestAddr(s1)
      s2 == Suffix(d.s)
      s3 == BeginChange(s2)
      r == s3.rr
      w == s3.rw
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(d.s) THEN d.s
     ELSE IF d.s.a1 <= d.addr /\ d.addr < d.s.a2 THEN Err(d.s, "Invalid destination address")
     ELSE IF BadRc(s2) THEN s2
     ELSE IF r < 0 /\ w < 0 THEN MoveLines(s3, s3.a1, s3.a2, d.addr)
     ELSE IF w < 0 THEN RegTruncate(RegRead(s3, r, d.addr), r)
     ELSE IF r < 0 THEN Delete(RegWrite(s3, w, s3.a1, s3.a2, s3.ra), s3.a1, s3.a2)
     ELSE InterMove(s3, r, w, s3.ra)

TCmd(s) ==
  LET s1 == ValidRange(s, s.dot, s.dot)
      d == DestAddr(s1)
      s2 == Suffix(d.s)
      s3 == BeginChange(s2)
      r == s3.rr
      w == s3.rw
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(d.s) THEN d.s
     ELSE IF BadRc(s2) THEN s2
     ELSE IF r < 0 /\ w < 0
     THEN [Insert(s3, d.addr, Text(s3, s3.a1, s3.a2)) EXCEPT !.mod = TRUE]
     ELSE IF w < 0 THEN RegRead(s3, r, d.addr)
     ELSE IF r < 0 THEN RegWrite(s3, w, s3.a1, s3.a2, s3.ra)
     ELSE InterCopy(s3, r, w, s3.ra)

(***************************************************************************)
(* Undo: exchange the buffer with the remembered state.                    *)
(***************************************************************************)
UCmd(s) ==
  LET s1 == NoAddr(s)
      s2 == Suffix(s1)
      u == s2.u
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s2) THEN s2
     ELSE IF ~u.ok THEN Err(s2, "Nothing to undo")
     ELSE [s2 EXCEPT !.u = Snap(s2), !.buf = u.buf, !.dot = u.dot, !.mod = u.mod,
                     !.bin = u.bin, !.nla = u.nla, !.u8 = u.u8,
                     !.gq = IF InGlobal(s2) THEN <<>> ELSE @]

(***************************************************************************)
(* Printing commands and small ones.                                       *)
(***************************************************************************)
PrintCmd(s, x) ==
  LET s1 == ValidOrEmpty(s, s.dot, s.dot)
      s2 == Suffix(s1)
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s2) THEN s2
     ELSE Display([s2 EXCEPT !.io = @ \cup {x}], s2.a1, s2.a2)

EqCmd(s) ==
  LET s1 == Suffix(s)
  IN IF BadRc(s1) THEN s1
     ELSE OutLine(s1, Dec(IF s1.ad > 0 THEN s1.a2 ELSE Dollar(s1)))

NewlineCmd(s) ==
  LET a == s.dot + (IF InGlobal(s) THEN 0 ELSE 1)
      s1 == ValidRange([s EXCEPT !.a1 = 1], 1, a)
  IN IF BadRc(s1) THEN s1
     ELSE IF InGlobal(s) /\ s.ad = 0 THEN Ok(s1)
     ELSE Display(s1, s1.a2, s1.a2)

\* Text of error messages.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf(ch) == 31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = ch
StrBytes(str) == [i \in 1..Len(str) |-> CodeOf(SubSeq(str, i, i))]

HCmd(s) ==
  LET s1 == NoAddr(s)
      s2 == Suffix(s1)
      s3 == [s2 EXCEPT !.verb = ~@]
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s2) THEN s2
     ELSE IF s3.verb /\ s3.err # "" THEN OutLine(s3, StrBytes(s3.err)) ELSE s3

HelpCmd(s) ==
  LET s1 == NoAddr(s)
      s2 == Suffix(s1)
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s2) THEN s2
     ELSE OutLine(s2, StrBytes(IF s2.err = "" THEN "No previous error" ELSE s2.err))

PromptCmd(s) ==
  LET s1 == NoAddr(s)
      s2 == Suffix(s1)
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s2) THEN s2
     ELSE [s2 EXCEPT !.prompt = ~@]

QuitCmd(s, c) ==
  LET s1 == NoAddr(s)
      s2 == Suffix(s1)
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s2) THEN s2
     ELSE [s2 EXCEPT !.rc = IF c = 113 /\ s2.mod /\ ~Scripted(s2) THEN "EMOD" ELSE "EOF"]

InvalidCmd(s) ==
  LET n == NextAddress(s, s.dot)
  IN IF n.s.rc = "UNSUP" THEN n.s
     ELSE Err([n.s EXCEPT !.dot = s.dot],
              IF ~BadRc(n.s) /\ n.got THEN "Invalid address" ELSE "Unknown command")

(***************************************************************************)
(* Files and the shell.                                                    *)
(***************************************************************************)
\* File name or shell command argument: [s, n]; n starts with ! for the latter.
NameArg(s, cm, replace, uniquely) ==
  IF Cur(s) = 33 THEN LET r == ShellArg(s) IN [s |-> r.s, n |-> <<33>> \o r.c]
  ELSE IF s.gb THEN ListArg(s, cm, replace, uniquely)
  ELSE FileArg(s)

IsPipe(s, n) == At(n, 1) = 33 \/ (n = <<>> /\ s.fn.has /\ At(s.fn.n, 1) = 33)
PipeOf(s, n) == Tail(IF At(n, 1) = 33 THEN n ELSE s.fn.n)
SetName(s, n) == [s EXCEPT !.fn = [has |-> TRUE, n |-> n], !.held = @ \cup {n}]

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexOf(n) == IF n < 16 THEN SubSeq("0123456789abcdef", n + 1, n + 1)
            ELSE SubSeq("0123456789abcdef", (n \div 16) + 1, (n \div 16) + 1)
                 \o SubSeq("0123456789abcdef", (n % 16) + 1, (n % 16) + 1)
ExitErr(s, st) == IF st = 0 THEN s ELSE [s EXCEPT !.err = "Exit status: 0x" \o HexOf(st)]

\* Read the output of a command: [s, size, lc].
ReadPipe(s, c, after) ==
  LET x == RunShell(s, c, <<>>)
      r == ReadStream([x.s EXCEPT !.ib = FALSE], after, x.o)
  IN IF BadRc(x.s) \/ x.sig # "" \/ ReadsInput(ShOf(s, c)) THEN [s |-> Unsup(x.s), size |-> 0, lc |-> 0]
     ELSE [s |-> PutBang(r.s), size |-> r.size, lc |-> r.s.dot - after]

RCmd(s0) ==
  LET p1 == SkipBlank(s0.inp, s0.p)
      s1 == [s0 EXCEPT !.p = p1, !.gb = @ /\ At(s0.inp, p1) # NL]
      a == NameArg(s1, "", ~s1.fn.has, TRUE)
      n == a.n
      s2 == BeginChange(a.s)
      after == IF s2.ad > 0 /\ s2.buf # <<>> THEN s2.a2 ELSE Dollar(s2)
      s3 == [s2 EXCEPT !.a2 = after]
      pipe == IsPipe(s3, n)
      s4 == IF ~pipe /\ ~s3.fn.has /\ n # <<>> THEN SetName(s3, n) ELSE s3
      file == IF n # <<>> THEN n ELSE IF s4.fn.has THEN s4.fn.n ELSE DevNull
      r == IF pipe THEN ReadPipe(s3, PipeOf(s3, n), after)
           ELSE ReadFile([s4 EXCEPT !.ib = FALSE], IF file = <<>> THEN DevNull ELSE file, after)
      s5 == IF pipe THEN r.s
            ELSE [(IF s1.gb /\ Verbose(r.s) THEN OutLine(r.s, n) ELSE r.s)
                    EXCEPT !.nla = IF r.s.bin /\ file = DevNull THEN TRUE ELSE @]
      s6 == IF s5.pff /\ Len(s5.fl.g) - s5.fl.pos > 1 THEN OutLine(s5, s5.fn.n) ELSE s5
      s7 == PutSize(s6, r.size)
  IN IF ~IsSpace(Cur(s0)) THEN Err(s0, "Command suffix unexpected")
     ELSE IF BadRc(a.s) THEN a.s
     ELSE IF BadRc(r.s) THEN r.s
     ELSE Ok(IF r.lc # 0 /\ r.lc # Dollar(s7) THEN [s7 EXCEPT !.mod = TRUE] ELSE s7)

\* Discard the buffer, as before editing another file.
Reset(s) ==
  [s EXCEPT !.buf = <<>>, !.u = NoSnap, !.uq = FALSE, !.gq = <<>>, !.dot = 0, !.mod = FALSE,
            !.bin = FALSE, !.nla = FALSE, !.u8 = TRUE, !.ib = FALSE, !.glob = 0, !.fp = FALSE,
            !.pg = [@ EXCEPT !.paging = FALSE, !.addr = 0, !.hid = FALSE]]

ECmd(s0) ==
  LET cm == IF s0.gb /\ Cur(s0) = 110 THEN "n" ELSE IF s0.gb /\ Cur(s0) = 112 THEN "p" ELSE ""
      s1 == NoAddr(s0)
      s2 == IF cm # "" THEN Adv(s1, 1) ELSE s1
      a == NameArg([s2 EXCEPT !.p = SkipBlank(s2.inp, s2.p)], cm, TRUE, FALSE)
      n == a.n
      s4 == Reset(a.s)
      pipe == IsPipe(s4, n)
      s5 == IF ~pipe /\ n # <<>> THEN SetName(s4, n) ELSE s4
      file == IF s5.fn.has /\ s5.fn.n # <<>> THEN s5.fn.n ELSE DevNull
      r == IF pipe THEN ReadPipe(s4, PipeOf(s4, n), 0) ELSE ReadFile(s5, file, 0)
      s6 == IF ~pipe /\ r.s.gb /\ Verbose(r.s) THEN OutLine(r.s, r.s.fn.n) ELSE r.s
  IN IF BadRc(s1) THEN s1
     ELSE IF ~IsSpace(Cur(s2)) THEN Err(s2, "Command suffix unexpected")
     ELSE IF BadRc(a.s) THEN a.s
     ELSE IF BadRc(r.s) THEN r.s
     ELSE Ok(StatusOK(PutSize(s6, r.size)))

FCmd(s0) ==
  LET cm == IF s0.gb /\ Cur(s0) = 110 THEN "n" ELSE IF s0.gb /\ Cur(s0) = 112 THEN "p" ELSE ""
      s1 == NoAddr(s0)
      s2 == IF cm # "" THEN Adv(s1, 1) ELSE s1
      s3 == [s2 EXCEPT !.p = SkipBlank(s2.inp, s2.p)]
      show == Cur(s3) = NL /\ cm = ""
      a == NameArg(s3, cm, TRUE, FALSE)
      s4 == SetName(a.s, a.n)
      list == s3.gb /\ s3.fl.g # <<>>
  IN IF BadRc(s1) THEN s1
     ELSE IF ~IsSpace(Cur(s2)) THEN Err(s2, "Command suffix unexpected")
     ELSE IF Cur(s3) # NL /\ cm # "" THEN Err(s3, "Command suffix unexpected")
     ELSE IF show
     THEN Ok(IF list THEN Out(Adv(s3, 1), JoinAll([i \in DOMAIN s3.fl.g |-> s3.fl.g[i] \o <<NL>>]))
             ELSE IF s3.fn.has THEN OutLine(Adv(s3, 1), s3.fn.n) ELSE Adv(s3, 1))
     ELSE IF BadRc(a.s) THEN a.s
     ELSE Ok(OutLine(s4, s4.fn.n))

WCmd(s0, c) ==
  LET s1 == ValidOrEmpty(s0, 1, Dollar(s0))
      x == Cur(s1)
      cy == s1.gb /\ x \in {110, 112}
      cq == ~s1.gb /\ x = 113
      s2 == IF cy \/ cq THEN Adv(s1, 1) ELSE s1
      p3 == SkipBlank(s2.inp, s2.p)
      s3 == [s2 EXCEPT !.p = p3, !.gb = @ /\ At(s2.inp, p3) # NL]
      a == NameArg(s3, "", ~s3.fn.has, TRUE)
      n == a.n
      s4 == a.s
      pipe == IsPipe(s4, n)
      s5 == IF ~pipe /\ ~s4.fn.has /\ n # <<>> THEN SetName(s4, n) ELSE s4
      file == IF n # <<>> THEN n ELSE IF s5.fn.has /\ s5.fn.n # <<>> THEN s5.fn.n ELSE DevNull
      named == n # <<>> \/ (s5.fn.has /\ s5.fn.n # <<>>)
      d == Bytes(s5, s5.a1, s5.a2)
      cnt == IF s5.a1 = 0 THEN 0 ELSE s5.a2 - s5.a1 + 1
      sh == RunShell(s5, PipeOf(s5, n), d)
      \* the output of the command goes to ed's standard output, at once
      w == IF pipe THEN (IF sh.sig # "" THEN Unsup(sh.s) ELSE PutBang(Out(sh.s, sh.o)))
           \* a device as default file is not described here
           ELSE IF ~s5.opt.red /\ file \in s4.held /\ Exists(s5, file) /\ FileOf(s5, file).k \in {"null", "full"} THEN Unsup(s5)
           ELSE WriteFile(s5, file, d, c = 87)
      s6 == IF pipe \/ cnt # Dollar(w) \/ ~named THEN w
            ELSE StatusOK([w EXCEPT !.mod = FALSE, !.u.mod = @ \/ w.uq])
      s7 == IF ~pipe /\ s3.gb /\ Verbose(s6) THEN OutLine(s6, file) ELSE s6
      s8 == Ok(PutSize(s7, Len(d)))
  IN IF BadRc(s1) THEN s1
     ELSE IF ~IsSpace(Cur(s2)) THEN Err(s2, "Command suffix unexpected")
     ELSE IF BadRc(a.s) THEN a.s
     ELSE IF BadRc(w) THEN w
     ELSE IF (cy \/ cq) /\ s8.mod /\ ~Scripted(s8) THEN [s8 EXCEPT !.rc = "EMOD"]
     ELSE IF cy THEN [s8 EXCEPT !.rc = IF x = 110 THEN "NEXT" ELSE "PREV"]
     ELSE IF cq THEN [s8 EXCEPT !.rc = "EOF"]
     ELSE s8

ShellCmd(s0) ==                     \* s0.p is just after the `!'
  LET a == ShellArg([s0 EXCEPT !.p = @ - 1])
      s1 == [a.s EXCEPT !.err = ""]
      x == RunShell(s1, a.c, <<>>)
      reads == ReadsInput(ShOf(s1, a.c))
      plain == IF BadRc(x.s) THEN x.s
               ELSE IF reads THEN Unsup(x.s)       \* it would read ed's own input
               ELSE IF x.sig = "int" THEN [Out(x.s, x.o) EXCEPT !.rc = "INT"]
               ELSE IF x.sig = "hup" THEN [Out(x.s, x.o) EXCEPT !.rc = "HUP"]
               ELSE PutBang(ExitErr(Out(x.s, x.o), x.st))
      empty == s1.buf = <<>>
      s2 == IF empty THEN [s1 EXCEPT !.ad = 0]
            ELSE ValidRange([s1 EXCEPT !.a1 = Max2(1, @), !.a2 = Max2(1, @)], s1.dot, s1.dot)
      s3 == BeginChange(s2)
      in == IF empty THEN <<>>
            ELSE JoinAll([i \in 1..(s3.a2 - s3.a1 + 1) |-> s3.buf[s3.a1 + i - 1].t \o <<NL>>])
      s4 == IF empty THEN s3 ELSE Delete(s3, s3.a1, s3.a2)
      s5 == IF s4.buf = <<>> THEN [s4 EXCEPT !.bin = FALSE] ELSE s4
      y == RunShell(s5, a.c, in)
      r == ReadStream([y.s EXCEPT !.ib = FALSE], s5.dot, y.o)
      s6 == ExitErr(PutSize(r.s, r.size), y.st)
  IN IF BadRc(a.s) THEN a.s
     ELSE IF s0.ad = 0 THEN Ok(plain)
     ELSE IF BadRc(s2) THEN s2
     ELSE IF BadRc(y.s) \/ y.sig # "" THEN Unsup(y.s)
     ELSE Ok([s6 EXCEPT !.dot = s3.a2 + Dollar(s6) - Dollar(s3)])

(***************************************************************************)
(* Scrolling.                                                              *)
(***************************************************************************)
RowsMax == 127
\* Optional window size: [s].
WindowSize(s) ==
  LET n == Num(s.inp, s.p)
  IN IF ~IsDigit(Cur(s)) THEN s
     ELSE [s EXCEPT !.p = n.p, !.pg.wsr = IF 1 < n.v /\ n.v < RowsMax THEN n.v ELSE @]

ScrollCmdZ(s, c) ==                 \* Z, or [ and ] near the ends
  LET addr == IF s.ad > 0 THEN s.dot - (IF InGlobal(s) THEN 0 ELSE 1)
              ELSE LET b == (IF s.pg.ispg THEN s.pg.addr ELSE s.dot)
                            - (IF InGlobal(s) \/ (s.io \cap {"HB", "HF"} # {} /\ s.dot = Dollar(s))
                               THEN 0 ELSE 1)
                   IN IF ~s.pg.ispg /\ c = 90 /\ b < Dollar(s) THEN b + 1 ELSE b
      s1 == ValidRange([s EXCEPT !.a1 = 1], 1, addr)
      s2 == WindowSize(s1)
      s3 == Suffix(s2)
      s4 == [s3 EXCEPT !.pg.paging = TRUE, !.io = @ \cup {"ZB"}]
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s3) THEN s3
     ELSE Display(s4, Max2(1, s4.a2 - s4.pg.wsr + 2), s4.a2)

ScrollCmdz(s, c) ==
  LET b == (IF c = 122 THEN s.dot ELSE s.a2) + (IF InGlobal(s) THEN 0 ELSE 1)
      addr == IF ~s.pg.ispg /\ c = 122 /\ b > 1 THEN b - 1 ELSE b
      s1 == ValidRange([s EXCEPT !.a1 = 1], 1, addr)
      s2 == WindowSize(s1)
      s3 == Suffix(s2)
      half == (s3.pg.wsr - 1) \div 2
      s4 == [s3 EXCEPT !.pg.paging = TRUE,
                       !.io = @ \cup (IF c = 122 THEN {"ZF"} ELSE {"ZF", "HF"})]
      to == Min2(Dollar(s4), IF c = 122 THEN s4.a2 + s4.pg.wsr - 2 ELSE s4.a2 + half - 1)
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s3) THEN s3
     ELSE Display(s4, s4.a2, to)

\* Load the page before the addressed line without printing it.
Normalize(s) ==
  LET inp == Dec(s.a1) \o <<44>> \o Dec(s.a2) \o <<90>> \o From(s.inp, s.p)
      s1 == AddressRange([s EXCEPT !.inp = inp, !.p = 1, !.pg.hid = TRUE])
      s2 == [s1 EXCEPT !.gb = FALSE, !.rr = -1, !.rw = -1, !.io = {}, !.p = @ + 1,
                       !.pg = [@ EXCEPT !.ispg = s1.pg.paging, !.paging = FALSE]]
      s3 == ScrollCmdZ(s2, 90)
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(s3) THEN s3
     ELSE [s3 EXCEPT !.inp = s.inp, !.p = s.p, !.pg.hid = FALSE, !.ad = 0]

HalfBack(s0) ==
  LET half == s0.pg.wsr \div 2
      s == IF ~s0.pg.ispg /\ s0.pg.addr = 0 THEN [s0 EXCEPT !.pg.addr = s0.dot] ELSE s0
      s1 == ValidRange(s, s.pg.addr, s.pg.addr)
      pa == Min2(Dollar(s1), s1.pg.addr + half - 1)
      s2 == Normalize(s1)
  IN IF BadRc(s1) THEN s1
     ELSE IF s1.pg.ispg /\ half - 1 < s1.pg.addr /\ s1.pg.addr < s1.pg.wsr
     THEN ScrollCmdZ([s1 EXCEPT !.pg.addr = pa, !.a1 = pa, !.a2 = pa, !.io = @ \cup {"HB"}], 91)
     ELSE IF BadRc(s2) THEN s2
     ELSE IF (~s2.pg.ispg /\ s2.a2 <= (s2.pg.wsr \div 2) + 1) \/ s2.dot = Dollar(s2)
     THEN ScrollCmdZ([s2 EXCEPT !.io = @ \cup {"HB"}], 91)
     ELSE ScrollCmdz(s2, 91)

HalfForward(s0) ==
  LET half == s0.pg.wsr \div 2
      s == IF ~s0.pg.ispg /\ s0.pg.addr = 0 THEN [s0 EXCEPT !.pg.addr = s0.dot] ELSE s0
      s1 == ValidRange(s, s.pg.addr, s.pg.addr)
      d == Min2(Dollar(s1), s1.a2 + half - 1)
      s2 == Normalize(s1)
  IN IF s0.pg.ispg /\ s0.ad = 0 THEN ScrollCmdz(s0, 93)
     ELSE IF BadRc(s1) THEN s1
     ELSE IF s1.ad > 0 /\ half - 1 < s1.a2 /\ s1.a2 < s1.pg.wsr
     THEN ScrollCmdZ([s1 EXCEPT !.dot = d, !.a1 = d, !.a2 = d, !.io = @ \cup {"HB"}], 93)
     ELSE IF BadRc(s2) THEN s2
     ELSE IF (~s2.pg.ispg /\ s2.a2 <= (s2.pg.wsr \div 2) + 1) \/ s2.dot = Dollar(s2)
     THEN ScrollCmdZ([s2 EXCEPT !.io = @ \cup {"HB"}], 93)
     ELSE ScrollCmdz(s2, 93)

(***************************************************************************)
(* Commands that run commands.                                             *)
(***************************************************************************)
RECURSIVE Exec(_)
RECURSIVE RunList(_)
RECURSIVE GlobLoop(_, _, _, _)
RECURSIVE MacroLoop(_)

\* One command with its addresses, and the print request it leaves.
Command(s) ==
  LET a == AddressRange(s)
      x == Exec(a)
  IN IF BadRc(a) THEN a
     ELSE IF BadRc(x) \/ x.io = {} THEN x
     ELSE Display(x, x.dot, x.dot)

RunList(s) == IF BadRc(s) \/ s.p > Len(s.inp) THEN s
              ELSE LET r == Command(s)
                   IN IF s.glob # r.glob /\ ~BadRc(r) /\ r.p <= Len(r.inp) THEN Unsup(r)
                      ELSE RunList(r)

\* Visit the lines of the queue.  cmd: list of an interactive global, kept
\* for `&'; first: no pass yet; saved: print request of G and V.
GlobLoop(s, cmd, first, saved) ==
  LET id == s.gq[1]
      a == AddrOf(s, id)
      s1 == [s EXCEPT !.gq = Tail(@), !.dot = a, !.fp = first]
      d == Display([s1 EXCEPT !.io = {"p"}], a, a)
      g == GetLine(d)
      x == Extended([g.s EXCEPT !.inp = g.l, !.p = 1], FALSE, TRUE)
      rep == x.l = <<38, NL>>
      c == IF s.glob = 2 /\ ~rep THEN x.l ELSE cmd
      from == IF s.glob = 2 THEN x.s ELSE s1
      r == RunList([from EXCEPT !.inp = c, !.p = 1])
  IN IF s.gq = <<>> THEN [s EXCEPT !.io = saved]
     ELSE IF a < 0 THEN Err(s1, "Address out of range")
     ELSE IF s.glob = 2 /\ BadRc(d) THEN d
     ELSE IF s.glob = 2 /\ (~g.got \/ ~EndsNL(g.l) \/ ~x.ok)
          THEN IF g.got THEN Unsup(g.s) ELSE Ok(g.s)
     ELSE IF s.glob = 2 /\ BadRc(x.s) THEN x.s
     ELSE IF s.glob = 2 /\ x.l = <<NL>> THEN GlobLoop(x.s, cmd, FALSE, saved)
     ELSE IF s.glob = 2 /\ rep /\ cmd = <<>> THEN Err(x.s, "No previous command")
     ELSE IF BadRc(r) THEN r
     ELSE GlobLoop(r, c, FALSE, saved)

GlobalCmd(s0, c) ==
  LET inter == c \in {71, 86}
      want == c \in {103, 71}
      s1 == ValidRange(s0, 1, Dollar(s0))
      dc == Cur(s1)
      g == GetPattern(s1, dc, FALSE, FALSE)
      closes == Cur(g.s) # NL /\ Cur(g.s) = dc /\ ~(dc = 92 /\ Nxt(g.s) = dc)
      s2 == IF closes THEN Adv(g.s, 1) ELSE g.s
      re == Compile(g.pat.p, s0.opt.ere)
      s3 == [s2 EXCEPT !.gq = LET is == SelectSeq([i \in 1..(s2.a2 - s2.a1 + 1) |-> s2.a1 + i - 1],
                                                   LAMBDA i : Matches(re, s2.buf[i].t) = want)
                               IN [k \in DOMAIN is |-> s2.buf[is[k]].id]]
      s4 == IF inter THEN Suffix(s3) ELSE s3
      s5 == [s4 EXCEPT !.glob = IF inter THEN 2 ELSE 1, !.gsp = Len(s4.mac),
                       !.u = Snap(s4), !.uq = FALSE]
      x == IF inter THEN [ok |-> TRUE, s |-> s5, l |-> <<>>] ELSE Extended(s5, FALSE, TRUE)
      cmd == IF x.l = <<NL>> THEN <<112, NL>> ELSE x.l
      r == GlobLoop(x.s, cmd, TRUE, IF inter THEN s4.io ELSE {})
  IN IF InGlobal(s0) THEN Err(s0, "Recursive global command")
     ELSE IF BadRc(s1) THEN s1
     ELSE IF BadRc(g.s) THEN g.s
     ELSE IF BadRc(s4) THEN s4
     ELSE IF ~x.ok \/ BadRc(x.s) THEN x.s
     ELSE IF BadRc(r) THEN r
     ELSE [r EXCEPT !.glob = 0]

MacroLoop(s) ==
  LET g == GetLine(s)
      r == Command([g.s EXCEPT !.inp = g.l, !.p = 1])
      pop(t) == [t EXCEPT !.mac = SubSeq(@, 1, Len(@) - 1), !.rc = "ok", !.io = {}]
  IN IF ~g.got THEN pop(s)
     ELSE IF r.rc = "EOF" THEN pop(r)
     ELSE IF BadRc(r) THEN [r EXCEPT !.mac = <<>>]
     ELSE MacroLoop(r)

MaxDepth == 50
MacroCmd(s0) ==
  LET s1 == ValidRange(s0, s0.dot, s0.dot)
      dig == s1.rr < 0 /\ IsDigit(Cur(s1))
      i == IF s1.rr >= 0 THEN s1.rr ELSE IF dig THEN Cur(s1) - 48 ELSE 10
      p2 == SkipBlank(s1.inp, IF dig THEN s1.p + 1 ELSE s1.p)
      s2 == [s1 EXCEPT !.p = p2]
      ls == Lines(WithNL(s2.reg[i].d))
      s3 == [(IF s2.reg[i].ex THEN s2 ELSE RegPut(s2, i, <<>>))
               EXCEPT !.mac = Append(@, [ls |-> ls, p |-> 1]), !.dot = s2.a2]
      r == MacroLoop(s3)
  IN IF BadRc(s1) THEN s1
     ELSE IF Cur(s2) # NL THEN Err(s2, "Command suffix unexpected")
     ELSE IF Len(s2.mac) >= MaxDepth
     THEN [Err(s2, "Exceeded maximum stack frame depth") EXCEPT !.mac = <<>>]
     ELSE IF BadRc(r) THEN r
     ELSE IF ListInput(s2) THEN [r EXCEPT !.inp = s2.inp, !.p = p2 + 1]
     ELSE r

Exec(s0) ==
  LET z == [s0 EXCEPT !.gb = FALSE, !.rr = -1, !.rw = -1, !.ra = FALSE, !.io = {},
                      !.p = SkipBlank(s0.inp, s0.p),
                      !.pg = [@ EXCEPT !.ispg = s0.pg.paging, !.paging = FALSE]]
      d == Nxt(z)
      s == IF Cur(z) = 60
           THEN LET q == IF IsDigit(d) THEN z.p + 2 ELSE z.p + 1
                IN [z EXCEPT !.rr = IF IsDigit(d) THEN d - 48 ELSE 10, !.p = SkipBlank(z.inp, q)]
           ELSE IF Cur(z) = 126 THEN [z EXCEPT !.gb = TRUE, !.p = @ + 1]
           ELSE z
      c == Cur(s)
      n == Adv(s, 1)
      badprefix == CASE c \in {109, 116, 64} -> s.gb
                     [] c \in {69, 101, 102, 114, 119, 87} -> s.rr >= 0
                     [] OTHER -> s.gb \/ s.rr >= 0
  IN IF badprefix THEN Err(n, "Command prefix unexpected")
     ELSE CASE c = NL -> NewlineCmd(n)
       [] c = 33 -> ShellCmd(n)
       [] c = 35 -> [n EXCEPT !.p = ToNL(n) + 1]
       [] c = 61 -> EqCmd(n)
       [] c = 64 -> MacroCmd(n)
       [] c = 69 -> ECmd(n)
       [] c \in {71, 86, 103, 118} -> GlobalCmd(n, c)
       [] c = 72 -> HCmd(n)
       [] c = 80 -> PromptCmd(n)
       [] c \in {81, 113} -> QuitCmd(n, c)
       [] c \in {87, 119} -> WCmd(n, c)
       [] c = 90 -> ScrollCmdZ(n, c)
       [] c = 91 -> HalfBack(n)
       [] c = 93 -> HalfForward(n)
       [] c = 97 -> ACmd(n)
       [] c = 99 -> CCmd(n)
       [] c = 100 -> DCmd(n)
       [] c = 101 -> IF n.mod THEN [n EXCEPT !.rc = "EMOD"] ELSE ECmd(n)
       [] c = 102 -> FCmd(n)
       [] c = 104 -> HelpCmd(n)
       [] c = 105 -> ICmd(n)
       [] c = 106 -> JCmd(n)
       [] c = 107 -> KCmd(n)
       [] c = 108 -> PrintCmd(n, "l")
       [] c = 109 -> MCmd(n)
       [] c = 110 -> PrintCmd(n, "n")
       [] c = 112 -> PrintCmd(n, "p")
       [] c = 114 -> RCmd(n)
       [] c = 115 -> LET r == SubCmd(n)
                     IN IF BadRc(r) \/ r.io = {} THEN r ELSE Display(r, r.dot, r.dot)
       [] c = 116 -> TCmd(n)
       [] c = 117 -> UCmd(n)
       [] c = 120 -> Unsup(n)
       [] c = 122 -> ScrollCmdz(n, c)
       [] OTHER -> InvalidCmd(n)
=============================================================================
