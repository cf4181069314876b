--------------------------------- MODULE Ed ---------------------------------
(* The editor as a state machine: one step starts the session, or opens the  *)
(* next file of the file list, or reads and runs one command.                *)
EXTENDS EdExec

(***************************************************************************)
(* Initial state of a session x (see EdTrace for where sessions come from). *)
(***************************************************************************)
NewState(x) ==
  [in |-> x.in, ip |-> 1, inp |-> <<>>, p |-> 1, out |-> <<>>, rc |-> "ok", err |-> "",
   io |-> {}, sfx |-> {}, buf |-> <<>>, nid |-> 1, dot |-> 0, mod |-> FALSE, bin |-> FALSE,
   nla |-> FALSE, u8 |-> TRUE, u |-> NoSnap, uq |-> FALSE, mk |-> [c \in 97..122 |-> -1],
   rr |-> -1, rw |-> -1, ra |-> FALSE, gb |-> FALSE, glob |-> 0, fp |-> FALSE, gsp |-> 0,
   gq |-> <<>>, mac |-> <<>>, psrch |-> NoPat, psub |-> NoPat, sub |-> NoSub, ib |-> FALSE,
   shp |-> NoPat, ad |-> 0, a1 |-> 0, a2 |-> 0, fn |-> [has |-> FALSE, n |-> <<>>], held |-> {},
   opt |-> x.opt, reg |-> [i \in 0..10 |-> [ex |-> FALSE, d |-> <<>>]],
   fs |-> [n \in {x.fs[i].n : i \in DOMAIN x.fs} |->
             LET f == x.fs[CHOOSE i \in DOMAIN x.fs : x.fs[i].n = n]
             IN [k |-> f.k, d |-> f.d, r |-> f.r, w |-> f.w]],
   fl |-> [g |-> x.args, pos |-> 0, ok |-> TRUE, av |-> TRUE],
   pg |-> [paging |-> FALSE, ispg |-> FALSE, addr |-> 0, prev |-> 0, wsr |-> x.opt.rows,
           rows |-> 0, ri |-> 0, ring |-> <<>>, bad |-> FALSE, hid |-> FALSE],
   status |-> 0, verb |-> x.opt.verb, prompt |-> x.opt.prompt, adr |-> x.adr, sh |-> x.sh,
   pff |-> x.opt.verb /\ x.args # <<>>,
   pc |-> IF x.args # <<>> THEN "open" ELSE "cmd", next |-> ""]

(***************************************************************************)
(* Commands that ed gives itself.                                          *)
(***************************************************************************)
Give(s, line) ==
  LET r == Exec([s EXCEPT !.inp = line, !.p = 1, !.ad = 0, !.a1 = 0, !.a2 = 0])
  IN IF BadRc(r) THEN r ELSE [r EXCEPT !.io = {}]

\* Open the current file of the list (or move in the list first).
OpenNext(s) ==
  Give(s, CASE s.next = "NEXT" -> <<126, 69, 110, NL>>
            [] s.next = "PREV" -> <<126, 69, 112, NL>>
            [] OTHER -> <<114, SP>> \o s.fl.g[s.fl.pos + 1] \o <<NL>>)

\* Write the current file, for in-place editing; sfx is appended to its name.
SaveEdit(s, sfx) ==
  LET cur == IF s.fl.pos < Len(s.fl.g) THEN s.fl.g[s.fl.pos + 1] ELSE <<>>
      usable(n) == n # <<>> /\ n[1] # 33
      name == IF usable(cur) THEN cur ELSE IF s.fn.has /\ usable(s.fn.n) THEN s.fn.n ELSE <<>>
  IN IF name = <<>> THEN [s EXCEPT !.rc = "FATAL", !.err = "File name not set"]
     ELSE Give([s EXCEPT !.rc = "ok"], <<119, SP>> \o name \o sfx \o <<NL>>)

(***************************************************************************)
(* What follows a command that did not simply succeed.                     *)
(***************************************************************************)
Exit(s, st) == [s EXCEPT !.pc = "exit", !.status = st]
Complain(s, msg) ==
  LET q == OutLine(s, <<63>>)
  IN IF s.verb /\ ~s.opt.eoe
     THEN OutLine(q, StrBytes(IF msg = "" THEN "(null)" ELSE msg)) ELSE q
Resume(s) == [s EXCEPT !.pc = IF Len(s.fl.g) > s.fl.pos THEN "open" ELSE "cmd"]
HupName == <<101, 100, 46, 104, 117, 112>>
Ready(s) == [s EXCEPT !.rc = "ok", !.io = {}, !.pc = "cmd"]

RECURSIVE Outcome(_)
Outcome(s) ==
  CASE s.rc = "ok" -> Ready(s)
    [] s.rc = "UNSUP" -> [s EXCEPT !.pc = "unsup"]
    [] s.rc \in {"NEXT", "PREV"} ->
         LET w == SaveEdit(s, <<>>)
         IN IF s.opt.ipl
            THEN IF BadRc(w) THEN Outcome(w) ELSE Resume([w EXCEPT !.next = s.rc, !.rc = "ok"])
            ELSE Resume([s EXCEPT !.next = s.rc, !.rc = "ok"])
    [] s.rc = "EOF" ->
         LET w == IF s.opt.ipl THEN SaveEdit(s, <<>>) ELSE [s EXCEPT !.rc = "ok"]
         IN IF BadRc(w) THEN Outcome(w)
            ELSE IF w.fl.av /\ Len(w.fl.g) - w.fl.pos > 1 /\ w.opt.eoe
            THEN Resume([w EXCEPT !.ip = 1, !.next = "NEXT"])
            ELSE Exit(w, w.status)
    [] s.rc = "EMOD" ->
         LET m == "WARNING: Buffer modified since last write"
             c == Complain([s EXCEPT !.err = m, !.mod = FALSE], m)
         IN IF s.opt.eoe THEN Exit(c, 2) ELSE Ready([c EXCEPT !.status = 3])
    [] s.rc = "FATAL" -> Exit(s, 3)
    [] s.rc = "HUP" ->
         LET t == [s EXCEPT !.rc = "ok"]
             w == WriteFile(t, HupName, Bytes(s, 1, Dollar(s)), FALSE)
         IN Exit(IF s.buf = <<>> THEN t
                 ELSE IF BadRc(w)
                 THEN WriteFile(t, s.opt.home \o <<47>> \o HupName, Bytes(s, 1, Dollar(s)), FALSE)
                 ELSE w, 2)
    [] s.rc = "INT" ->
         LET m == "Interrupted"
             c == Complain([s EXCEPT !.err = m, !.mac = <<>>], m)
         IN IF s.opt.eoe THEN Exit(c, 4) ELSE Ready([c EXCEPT !.status = 2, !.pg.hid = FALSE])
    [] OTHER ->
         LET c == Complain(s, s.err)
         IN IF s.opt.eoe THEN Exit(c, 4) ELSE Ready([c EXCEPT !.status = 2, !.pg.hid = FALSE])

\* A command that reads its first line at the end of input.
EndOfInput(s) == [s EXCEPT !.rc = IF s.mod /\ ~Scripted(s) THEN "EMOD" ELSE "EOF"]

OpenStep(s) ==
  LET r == OpenNext(s)
      r1 == [r EXCEPT !.pff = FALSE]
      w == IF s.opt.ipl /\ s.opt.sfx.has THEN SaveEdit(r1, s.opt.sfx.n) ELSE r1
  IN IF BadRc(r) THEN Outcome(r) ELSE Outcome(w)

CommandStep(s0) ==
  LET s == IF s0.prompt THEN Out(s0, s0.opt.ptxt) ELSE s0
      g == GetLine(s)
      l == IF s.adr # <<>> THEN s.adr[1] ELSE g.l
      t == IF s.adr # <<>> THEN [s EXCEPT !.adr = Tail(@)] ELSE g.s
  IN IF s.adr = <<>> /\ ~g.got THEN Outcome(EndOfInput(s))
     ELSE IF ~EndsNL(l) THEN Outcome(Err(t, "End-of-file unexpected"))
     ELSE Outcome(Command([t EXCEPT !.inp = l, !.p = 1, !.glob = 0]))

\* One step of the editor.
Step(s) == IF s.pc = "open" THEN OpenStep(s) ELSE CommandStep(s)
Running(s) == s.pc \in {"open", "cmd"}

\* All the steps that input lines ls give rise to.
RECURSIVE RunAll(_)
RunAll(s) == IF ~Running(s) \/ (s.pc = "cmd" /\ s.ip > Len(s.in) /\ s.adr = <<>>) THEN s
             ELSE RunAll(Step(s))
Run(s, ls) == RunAll([s EXCEPT !.in = ls, !.ip = 1])

(***************************************************************************)
(* State properties that hold between commands.                            *)
(***************************************************************************)
CurrentLineExists(s) == 0 <= s.dot /\ s.dot <= Dollar(s)
LinesDistinct(s) == Cardinality({s.buf[i].id : i \in DOMAIN s.buf}) = Dollar(s)
LinesHaveNoNewline(s) == \A i \in 1..Dollar(s) : ~HasByte(s.buf[i].t, NL)
MacrosDone(s) == s.mac = <<>>
StateOK(s) == /\ CurrentLineExists(s)
              /\ LinesDistinct(s)
              /\ LinesHaveNoNewline(s)
              /\ MacrosDone(s)
              /\ s.nla => s.buf # <<>> \/ s.bin
=============================================================================
