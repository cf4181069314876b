------------------------------- MODULE EdFile -------------------------------
(* Files, file lists and shell commands.  The file system is a function      *)
(* s.fs from names to [k, d, r, w]: kind (reg, dir, null, full, fifo, unk),  *)
(* bytes, and whether ed may read and write it.                              *)
EXTENDS EdSub

DevNull == <<47, 100, 101, 118, 47, 110, 117, 108, 108>>
DevFull == <<47, 100, 101, 118, 47, 102, 117, 108, 108>>
DirName(n) == LET ps == {i \in DOMAIN n : n[i] = 47}
              IN IF ps = {} THEN <<>>
                 ELSE SubSeq(n, 1, (CHOOSE i \in ps : \A j \in ps : j <= i) - 1)
Exists(s, n) == n \in DOMAIN s.fs \/ n \in {DevNull, DevFull, <<46>>}
FileOf(s, n) == IF n = DevNull THEN [k |-> "null", d |-> <<>>, r |-> TRUE, w |-> TRUE]
                ELSE IF n = DevFull THEN [k |-> "full", d |-> <<>>, r |-> TRUE, w |-> TRUE]
                ELSE IF n = <<46>> THEN [k |-> "dir", d |-> <<>>, r |-> TRUE, w |-> TRUE]
                ELSE s.fs[n]
RegFile(d) == [k |-> "reg", d |-> d, r |-> TRUE, w |-> TRUE]
SetFile(s, n, f) == [s EXCEPT !.fs = [x \in DOMAIN s.fs \cup {n} |-> IF x = n THEN f ELSE s.fs[x]]]
NotDir(s, n) == LET d == DirName(n) IN d \in DOMAIN s.fs /\ s.fs[d].k # "dir"
NoParent(s, n) == HasByte(n, 47) /\ ~Exists(s, n) /\ DirName(n) \notin DOMAIN s.fs

\* Outcome of opening n for reading: "" or the error.
ReadFault(s, n) ==
  IF NotDir(s, n) THEN "File status error"
  ELSE IF ~Exists(s, n) THEN "File does not exist"
  ELSE LET f == FileOf(s, n)
       IN IF s.opt.red /\ f.k # "reg" THEN "Access restricted to regular files"
          ELSE IF ~f.r THEN "File open error"
          ELSE IF f.k = "dir" THEN "File read error"
          ELSE ""
\* Outcome of writing `size' bytes to n.
WriteFault(s, n, size) ==
  IF NotDir(s, n) THEN "File status error"
  ELSE IF NoParent(s, n) THEN "File open error"
  ELSE IF ~Exists(s, n) THEN IF s.opt.cwdw \/ HasByte(n, 47) THEN "" ELSE "File open error"
  ELSE LET f == FileOf(s, n)
       IN IF s.opt.red /\ f.k # "reg" THEN "Access restricted to regular files"
          ELSE IF ~f.w \/ f.k = "dir" THEN "File open error"
          ELSE IF f.k = "full" /\ size > 0 THEN "File write error"
          ELSE ""

\* The file-size limit of the session, if any, makes larger files fail.
OverLimit(s, size) == s.opt.fsz >= 0 /\ size > s.opt.fsz

(* Write data to n; app: append.  Result: state (rc ERR if it failed).       *)
WriteFile(s, n, data, app) ==
  LET flt == WriteFault(s, n, Len(data))
      old == IF Exists(s, n) THEN FileOf(s, n) ELSE RegFile(<<>>)
      new == IF app THEN old.d \o data ELSE data
      k == IF Exists(s, n) THEN FileOf(s, n).k ELSE ""
  IN IF k = "unk" \/ (k = "fifo" /\ flt = "") \/ (k = "dir" /\ s.fn.has /\ s.fn.n = n /\ ~s.opt.red) THEN Unsup(s)
     ELSE IF flt # "" THEN Err(s, flt)
     ELSE IF old.k \in {"null", "full"} THEN s
     ELSE IF OverLimit(s, Len(new)) /\ data # <<>>
          THEN Err(SetFile(s, n, [old EXCEPT !.k = "unk"]), "File write error")
     ELSE SetFile(s, n, [old EXCEPT !.d = new])

(* Read file n after line `after': [s, size, n lines read].                  *)
ReadFile(s, n, after) ==
  LET flt == ReadFault(s, n)
      r == ReadStream(s, after, FileOf(s, n).d)
  IN IF flt # ""
     THEN [s |-> Err(IF flt = "File read error" THEN [s EXCEPT !.dot = after] ELSE s, flt),
           size |-> 0, lc |-> 0]
     ELSE IF FileOf(s, n).k \notin {"reg", "null"} THEN [s |-> Unsup(s), size |-> 0, lc |-> 0]
     ELSE [s |-> r.s, size |-> r.size, lc |-> r.s.dot - after]

(***************************************************************************)
(* Shell commands: what each known command does is given with the session. *)
(* [c |-> command, k |-> kind, d |-> bytes, f |-> file, st |-> status]     *)
(***************************************************************************)
RECURSIVE MapUpper(_)
MapUpper(x) == [i \in DOMAIN x |-> ToUpper(x[i])]
RevLines(x) == LET ls == Lines(x) IN JoinAll([i \in DOMAIN ls |-> ls[Len(ls) + 1 - i]])
SortedLines(x) == LET ls == Lines(x) IN JoinAll(SortSeq(ls, LAMBDA a, b : a # b /\ LexLE(a, b)))
EvenLines(x) == LET ls == Lines(x) IN JoinAll([i \in 1..(Len(ls) \div 2) |-> ls[2 * i]])
\* as `sed p': a newline is added only between the copies of the last line
DoubleLines(x) == LET ls == Lines(x)
                      nl(l) == IF l # <<>> /\ l[Len(l)] = NL THEN <<>> ELSE <<NL>>
                  IN JoinAll([i \in 1..(2 * Len(ls)) |->
                                ls[(i + 1) \div 2] \o (IF i % 2 = 1 THEN nl(ls[(i + 1) \div 2]) ELSE <<>>)])
\* `echo' with plain words, and several of them on lines of their own.
EchoByte(c) == IsAlnum(c) \/ c \in {SP, 37, 33, 45, 46, 44, 43, 58, 64}
RECURSIVE Words(_)
Words(x) == LET p == SkipBlank(x, 1)
                e == FindByte(x, SP, p)
            IN IF p > Len(x) THEN <<>> ELSE <<SubSeq(x, p, e - 1)>> \o Words(From(x, e))
EchoOne(l) == LET ws == Tail(Words(l))
              IN JoinAll([i \in DOMAIN ws |-> IF i = Len(ws) THEN ws[i] ELSE Append(ws[i], SP)]) \o <<NL>>
EchoLine(l) == LET ws == Words(l)
               IN /\ \A i \in DOMAIN l : EchoByte(l[i])
                  /\ ws # <<>> /\ ws[1] = <<101, 99, 104, 111>>
                  /\ \A i \in DOMAIN ws : IsPrefixAt(<<45, 110>>, ws[i], 1) => FALSE
CatLine(l) == LET ws == Words(l) IN Len(ws) = 2 /\ ws[1] = <<99, 97, 116>>
                                    /\ \A i \in DOMAIN ws[2] : IsAlnum(ws[2][i])
ReadsInput(r) == r.k \in {"cat", "upper", "rev", "sort", "even", "double", "prefix", "suffix",
                          "count", "save", "append", "drop"}
ShOf(s, c) == LET m == {i \in DOMAIN s.sh : s.sh[i].c = c}
                  ls == Lines(c)
              IN IF m = {} /\ ls # <<>> /\ \A i \in DOMAIN ls : EchoLine(Chomp(ls[i]))
                 THEN [k |-> "const", d |-> JoinAll([i \in DOMAIN ls |-> EchoOne(Chomp(ls[i]))]), f |-> <<>>, st |-> 0, sig |-> ""]
                 ELSE IF m = {} /\ CatLine(c)
                 THEN [k |-> "read", d |-> <<>>, f |-> Words(c)[2], st |-> 0, sig |-> ""]
                 ELSE IF m = {} THEN [k |-> "unknown", d |-> <<>>, f |-> <<>>, st |-> 0, sig |-> ""]
                 ELSE s.sh[CHOOSE i \in m : TRUE]
\* Standard output of command r given input x.
ShOut(s, r, x) ==
  CASE r.k \in {"const", "drop"} -> r.d
    [] r.k = "cat" -> x
    [] r.k = "upper" -> MapUpper(x)
    [] r.k = "rev" -> RevLines(x)
    [] r.k = "sort" -> SortedLines(x)
    [] r.k = "even" -> EvenLines(x)
    [] r.k = "double" -> DoubleLines(x)
    [] r.k = "prefix" -> r.d \o x
    [] r.k = "suffix" -> x \o r.d
    [] r.k = "read" -> IF r.f \in DOMAIN s.fs THEN s.fs[r.f].d ELSE <<>>
    [] r.k = "count" -> Dec(Cardinality({i \in DOMAIN x : x[i] = NL})) \o <<NL>>
    [] OTHER -> <<>>
\* Effects on files.
ShEffect(s, r, x) ==
  CASE r.k = "save" -> SetFile(s, r.f, RegFile(x))
    [] r.k = "append" -> SetFile(s, r.f, RegFile((IF r.f \in DOMAIN s.fs THEN s.fs[r.f].d ELSE <<>>) \o x))
    [] r.k = "put" -> SetFile(s, r.f, RegFile(r.d))
    [] r.k = "rm" -> [s EXCEPT !.fs = [n \in (DOMAIN s.fs \ {r.f}) |-> s.fs[n]]]
    [] r.k = "mkdir" -> SetFile(s, r.f, [k |-> "dir", d |-> <<>>, r |-> TRUE, w |-> TRUE])
    [] r.k = "mode" /\ r.f \in DOMAIN s.fs ->
         SetFile(s, r.f, [s.fs[r.f] EXCEPT !.r = r.d[1] = 114, !.w = r.d[2] = 119])
    [] OTHER -> s
RunShell(s, c, x) ==
  LET r == ShOf(s, c)
      held == r.k \in {"rm", "mode"} /\ r.f \in s.held   \* ed may have it open
      denied == r.k \in {"rm", "mkdir"} /\ ~s.opt.cwdw
  IN IF r.k = "unknown" \/ held THEN [s |-> Unsup(s), o |-> <<>>, st |-> 0, sig |-> ""]
     ELSE IF denied THEN [s |-> s, o |-> <<>>, st |-> IF r.k = "rm" /\ r.f \notin DOMAIN s.fs THEN 0 ELSE 1, sig |-> ""]
     ELSE [s |-> ShEffect(s, r, x), o |-> ShOut(s, r, x),
          st |-> IF r.k = "read" /\ r.f \notin DOMAIN s.fs THEN 1 ELSE r.st, sig |-> r.sig]

(***************************************************************************)
(* File lists.  s.fl = [g |-> names, pos |-> index (from 0) of the current *)
(* one, ok |-> usable].                                                    *)
(***************************************************************************)
\* Names of an argument: whitespace separates them unless escaped.
RECURSIVE Tokens(_, _, _, _)
Tokens(x, p, cur, acc) ==
  LET c == At(x, p)
  IN IF p > Len(x) THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
     ELSE IF c = 92 /\ IsSpace(At(x, p + 1)) THEN Tokens(x, p + 2, Append(cur, At(x, p + 1)), acc)
     ELSE IF IsSpace(c) THEN Tokens(x, p + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
     ELSE Tokens(x, p + 1, Append(cur, c), acc)

RECURSIVE Wild(_, _)      \* file name pattern with * and ?
Wild(pat, n) ==
  IF pat = <<>> THEN n = <<>>
  ELSE IF pat[1] = 42 THEN Wild(Tail(pat), n) \/ (n # <<>> /\ Wild(pat, Tail(n)))
  ELSE n # <<>> /\ (pat[1] = 63 \/ pat[1] = n[1]) /\ Wild(Tail(pat), Tail(n))
IsWild(x) == HasByte(x, 42) \/ HasByte(x, 63)
Odd(x) == HasByte(x, 91) \/ HasByte(x, 92) \/ At(x, 1) = 126 \/ (HasByte(x, 47) /\ IsWild(x))

SortNames(S) == SortSeq(SetToSeq(S), LAMBDA a, b : a # b /\ LexLE(a, b))
GlobOne(s, x) ==
  LET m == {n \in DOMAIN s.fs : ~HasByte(n, 47) /\ n[1] # 46 /\ Wild(x, n)}
  IN IF IsWild(x) /\ m # {} THEN SortNames(m) ELSE <<x>>
\* Names that argument x stands for: [ok, ns]; ok = FALSE: directory missing.
GlobAll(s, x) ==
  LET ts == Tokens(x, 1, <<>>, <<>>)
      bad == \E i \in DOMAIN ts : NoParent(s, ts[i])
  IN [ok |-> ~bad, odd |-> \E i \in DOMAIN ts : Odd(ts[i]),
      ns |-> IF bad THEN <<>> ELSE FlattenSeq([i \in DOMAIN ts |-> GlobOne(s, ts[i])])]

RedName(s, n) == s.opt.red /\ (n = <<46, 46>> \/ HasByte(n, 47))
RedErr == "Access restricted to working directory"

(* Argument of a list command (with the ~ prefix): [s, n].                   *)
ListArg(s0, cm, replace, uniquely) ==
  LET x == Extended(s0, TRUE, FALSE)
      s == [x.s EXCEPT !.p = IF x.s.ip = s0.ip /\ x.s.mac = s0.mac THEN ToNL(s0) + 1
                             ELSE Len(s0.inp) + 1]
      toks == Tokens(x.l, 1, <<>>, <<>>)
      g == GlobAll(s, x.l)
      fl == s.fl
      left == Len(fl.g) - fl.pos
      bad(e) == [s |-> Err(s, e), n |-> <<>>]
      pick(t, n) == IF RedName(s, n) THEN [s |-> Err(t, RedErr), n |-> <<>>]
                    ELSE [s |-> [t EXCEPT !.p = Len(s0.inp) + 1], n |-> n]
  IN IF ~x.ok THEN [s |-> x.s, n |-> <<>>]
     ELSE IF RedName(s, x.l) THEN bad(RedErr)
     ELSE IF toks # <<>>
     THEN IF g.odd THEN [s |-> Unsup(s), n |-> <<>>]
          ELSE IF ~g.ok
          THEN IF fl.ok /\ ~replace THEN bad("Pathname expansion error")
               ELSE [s |-> Err([s EXCEPT !.fl = [g |-> <<>>, pos |-> 0, ok |-> FALSE, av |-> FALSE]],
                               "Pathname expansion error"), n |-> <<>>]
          ELSE IF uniquely /\ Len(g.ns) > 1
          THEN IF fl.ok /\ ~replace THEN bad("Too many file names") ELSE [s |-> Unsup(s), n |-> <<>>]
          ELSE IF fl.ok /\ ~replace THEN pick(s, g.ns[1])
          ELSE pick([s EXCEPT !.fl = [g |-> IF replace THEN g.ns ELSE fl.g, pos |-> 0,
                                      ok |-> TRUE, av |-> FALSE]],
                    g.ns[1])
     ELSE IF cm = "n"
     THEN IF ~fl.ok \/ left <= 1 THEN bad("No more files")
          ELSE pick([s EXCEPT !.fl.pos = @ + 1], fl.g[fl.pos + 2])
     ELSE IF cm = "p"
     THEN IF ~fl.ok \/ fl.pos = 0 THEN bad("No more files")
          ELSE pick([s EXCEPT !.fl.pos = @ - 1], fl.g[fl.pos])
     ELSE IF fl.g = <<>>
     THEN IF s.fn.has THEN [s |-> s, n |-> s.fn.n] ELSE bad("No more files")
     ELSE pick([s EXCEPT !.fl.pos = 0], fl.g[1])
=============================================================================
