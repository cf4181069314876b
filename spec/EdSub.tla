-------------------------------- MODULE EdSub --------------------------------
(* The substitution command s.                                               *)
EXTENDS EdCore

\* Last substitution: pattern, template, modifiers and print request.
NoSub == [has |-> FALSE, pat |-> NoPat, tpl |-> NoPat, g |-> FALSE, nth |-> 0, mod |-> 0,
          snlr |-> FALSE, smlr |-> FALSE, prsw |-> FALSE, io |-> {}]

ShortChars == {NL, 36, 43, 45, 94, 103, 112, 114} \cup (48..57)

\* Modifiers of a repeated substitution (s, sg, sp, sr, sN, sgN ...).
\* u: the substitution being built; tg: toggles seen; gf: `g' seen.
RECURSIVE Resub(_, _, _, _)
Resub(s, u, tg, gf) ==
  LET c == Cur(s)
      o == Offsets(Adv(s, 1), IF gf THEN u.mod ELSE u.nth)
      z == Offsets(s, 0)
      flip(x) == IF x \in tg THEN tg \ {x} ELSE tg \cup {x}
  IN CASE c = NL -> [s |-> s, u |-> u, tg |-> tg]
       [] c = 36 -> IF gf THEN Resub(o.s, [u EXCEPT !.smlr = TRUE, !.mod = o.a], tg, gf)
                    ELSE Resub(o.s, [u EXCEPT !.snlr = TRUE, !.nth = o.a], tg, gf)
       [] c \in {43, 45, 94} \cup (48..57) ->
            IF gf THEN Resub(z.s, [u EXCEPT !.g = FALSE, !.smlr = z.a <= 0, !.mod = z.a], tg, gf)
            ELSE Resub(z.s, [u EXCEPT !.nth = z.a, !.snlr = z.a <= 0], tg, gf)
       [] c = 103 -> Resub(Adv(s, 1), u, flip("g"), TRUE)
       [] c = 112 -> Resub(Adv(s, 1), u, flip("p"), gf)
       [] c = 114 -> Resub(Adv(s, 1), u, flip("r"), gf)
       [] OTHER -> [s |-> Err(s, "Unknown command suffix"), u |-> u, tg |-> tg]

\* Modifiers after the closing delimiter.
RECURSIVE SubMods(_, _)
SubMods(s, u) ==
  LET c == Cur(s)
      o == Offsets(Adv(s, 1), IF u.g THEN u.mod ELSE u.nth)
      z == Offsets(s, IF u.g THEN u.mod ELSE u.nth)
  IN CASE c = 36 -> IF u.g THEN SubMods(o.s, [u EXCEPT !.smlr = TRUE, !.mod = o.a])
                    ELSE SubMods(o.s, [u EXCEPT !.snlr = TRUE, !.nth = o.a])
       [] c \in {43, 45} \cup (48..57) ->
            IF u.g THEN SubMods(z.s, [u EXCEPT !.mod = z.a, !.smlr = z.a <= 0])
            ELSE SubMods(z.s, [u EXCEPT !.nth = z.a, !.smlr = FALSE, !.snlr = z.a <= 0])
       [] c = 103 -> SubMods(Adv(s, 1), [u EXCEPT !.g = TRUE])
       [] OTHER -> [s |-> s, u |-> u]

\* Template up to the delimiter: [t, p].
RECURSIVE TplEnd(_, _, _, _)
TplEnd(x, p, dc, acc) ==
  LET c == At(x, p)
  IN IF c = dc \/ (c = NL /\ p = Len(x)) THEN [t |-> acc, p |-> p]
     ELSE IF c = 92 /\ At(x, p + 1) = dc THEN TplEnd(x, p + 2, dc, Append(acc, dc))
     ELSE IF c = 92 /\ At(x, p + 1) = 92 THEN TplEnd(x, p + 2, dc, acc \o <<92, 92>>)
     ELSE TplEnd(x, p + 1, dc, Append(acc, c))

\* Right-hand side and modifiers of an ordinary substitution: [s, u].
SubRhs(s0, u0) ==
  LET u1 == [u0 EXCEPT !.g = FALSE, !.nth = 0, !.mod = 0, !.snlr = FALSE, !.smlr = FALSE,
                       !.prsw = FALSE, !.io = {}]
      x == IF ListInput(s0) THEN [ok |-> TRUE, s |-> [s0 EXCEPT !.ib = FALSE], l |-> <<>>]
           ELSE Extended([s0 EXCEPT !.ib = FALSE], FALSE, FALSE)
      s == IF ListInput(s0) THEN x.s ELSE [x.s EXCEPT !.inp = x.l, !.p = 1]
      dc == Cur(s)
      prev == Nxt(s) = 37 /\ At(s.inp, s.p + 2) \in {dc, NL}
      t == TplEnd(s.inp, s.p + 1, dc, <<>>)
      u2 == IF prev THEN u1 ELSE [u1 EXCEPT !.tpl = Pat(t.t)]
      s2 == [s EXCEPT !.p = IF prev THEN s.p + 2 ELSE t.p]
  IN IF ~x.ok THEN [s |-> x.s, u |-> u0]
     ELSE IF dc = NL THEN [s |-> s, u |-> [u1 EXCEPT !.tpl = Pat(<<>>), !.io = {"p"}]]
     ELSE IF prev /\ ~u0.tpl.has THEN [s |-> Err(s, "No previous substitution"), u |-> u0]
     ELSE IF Cur(s2) = NL THEN [s |-> s2, u |-> [u2 EXCEPT !.io = {"p"}]]
     ELSE LET m == SubMods(Adv(s2, 1), u2) IN [s |-> m.s, u |-> m.u]

\* Apply case changes (stack st, once: 1 upper, -1 lower, 0 none) to bytes b.
RECURSIVE Cased(_, _, _)
Cased(b, top, once) ==
  IF b = <<>> THEN <<>>
  ELSE <<IF top > 0 \/ once > 0 THEN ToUpper(b[1])
         ELSE IF top < 0 \/ once < 0 THEN ToLower(b[1]) ELSE b[1]>> \o Cased(Tail(b), top, 0)

\* Expansion of template t for match m in text x.
RECURSIVE Expand(_, _, _, _, _, _)
Expand(t, p, x, m, st, once) ==
  LET c == At(t, p)
      d == At(t, p + 1)
      top == st[Len(st)]
      put(b, q) == Cased(b, top, once) \o Expand(t, q, x, m, st, IF b = <<>> THEN once ELSE 0)
      group(i) == IF i = 0 THEN SubSeq(x, m.so, m.eo - 1)
                  ELSE IF i > Len(m.c) \/ m.c[i] = <<0, 0>> THEN <<>>
                  ELSE SubSeq(x, m.c[i][1], m.c[i][2] - 1)
  IN IF p > Len(t) THEN <<>>
     ELSE IF c = 38 THEN put(group(0), p + 1)
     ELSE IF c # 92 THEN put(<<c>>, p + 1)
     ELSE CASE IsDigit(d) -> put(group(d - 48), p + 2)
            [] d = 85 -> Expand(t, p + 2, x, m, Append(st, 1), once)
            [] d = 76 -> Expand(t, p + 2, x, m, Append(st, -1), once)
            [] d = 117 -> Expand(t, p + 2, x, m, st, 1)
            [] d = 108 -> Expand(t, p + 2, x, m, st, -1)
            [] d = 69 -> Expand(t, p + 2, x, m, IF Len(st) > 1 THEN SubSeq(st, 1, Len(st) - 1) ELSE st, once)
            [] OTHER -> put(<<d>>, p + 2)

\* The matches of a line that substitution u replaces.
Selected(u, ms) ==
  LET n == Len(ms)
      nth == IF u.snlr THEN u.nth + n ELSE IF u.nth = 0 THEN 1 ELSE u.nth
      mod == IF u.smlr THEN u.mod + n ELSE IF u.mod = 0 THEN 1 ELSE u.mod
      sel == {k \in 1..n : k >= nth /\ (k - nth) % mod = 0}
  IN IF (u.snlr \/ u.smlr) /\ n <= Abs(u.nth) THEN {}
     ELSE IF u.smlr /\ n + u.mod <= 0 THEN {}
     ELSE IF u.g \/ sel = {} THEN sel
     ELSE {CHOOSE k \in sel : \A j \in sel : k <= j}

RECURSIVE Rebuild(_, _, _, _, _)
Rebuild(x, ms, sel, t, from) ==    \* from: next byte to copy; ms: remaining matches
  IF ms = <<>> THEN SubSeq(x, from, Len(x))
  ELSE LET m == ms[1][2]
       IN IF ms[1][1] \notin sel THEN Rebuild(x, Tail(ms), sel, t, from)
          ELSE SubSeq(x, from, m.so - 1) \o Expand(t, 1, x, m, <<0>>, 0)
               \o Rebuild(x, Tail(ms), sel, t, m.eo)

\* Result of substitution u on text x: [hit, t].
SubText(u, re, x) ==
  LET ms == AllMatches(re, x)
      sel == Selected(u, ms)
  IN IF sel = {} THEN [hit |-> FALSE, t |-> x]
     ELSE [hit |-> TRUE,
           t |-> Rebuild(x, [i \in DOMAIN ms |-> <<i, ms[i]>>], sel, u.tpl.p, 1)]

\* Running totals of a sequence of numbers.
RECURSIVE Totals(_, _, _)
Totals(ns, i, acc) == IF i > Len(ns) THEN <<>> ELSE <<acc + ns[i]>> \o Totals(ns, i + 1, acc + ns[i])

\* Substitute in lines a..to; a mark on a changed line goes to its first
\* replacement, and a changed line is no longer visited by a global command.
SubLines(s, u, re, a, to) ==
  LET n == to - a + 1
      rs == TLCEval([k \in 1..n |-> SubText(u, re, s.buf[a + k - 1].t)])
      new == TLCEval([k \in 1..n |-> IF rs[k].hit
                                     THEN LET ls == Lines(rs[k].t \o <<NL>>)
                                          IN TLCEval([i \in DOMAIN ls |-> Chomp(ls[i])])
                                     ELSE <<>>])
      hits == {k \in 1..n : rs[k].hit}
      end == TLCEval(Totals([k \in 1..n |-> Len(new[k])], 1, 0))       \* new lines up to k
      id(k) == s.nid + end[k] - Len(new[k])
      nodes == [k \in 1..n |-> IF rs[k].hit
                               THEN [i \in DOMAIN new[k] |-> [id |-> id(k) + i - 1, t |-> new[k][i]]]
                               ELSE <<s.buf[a + k - 1]>>]
      last == CHOOSE k \in hits : \A j \in hits : j <= k
      gone == {s.buf[a + k - 1].id : k \in hits}
      place(x) == IF x \in gone THEN id(CHOOSE k \in hits : s.buf[a + k - 1].id = x) ELSE x
  IN IF hits = {} THEN [s |-> s, hits |-> 0]
     ELSE [hits |-> Cardinality(hits),
           s |-> [s EXCEPT !.buf = SubSeq(@, 1, a - 1) \o JoinAll(TLCEval(nodes)) \o From(@, to + 1),
                           !.nid = @ + end[n],
                           !.mk = IF \E c \in DOMAIN @ : @[c] \in gone
                                  THEN TLCEval([c \in DOMAIN @ |-> place(@[c])]) ELSE @,
                           !.gq = IF InGlobal(s) THEN SelectSeq(@, LAMBDA x : x \notin gone) ELSE @,
                           !.u8 = @ /\ \A k \in hits : \A i \in DOMAIN new[k] : Utf8Valid(new[k][i]),
                           !.bin = @ \/ s.ib, !.mod = TRUE, !.uq = TRUE,
                           !.dot = a - 1 + end[last] + (last - Cardinality(hits))]]

\* s command; `disp' is left in s.io, with prsw suppressing the output.
\* Result: state with the print request in io and flag u.prsw considered.
SubCmd(s0) ==
  LET s1 == ValidRange(s0, s0.dot, s0.dot)
      short == Cur(s1) \in ShortChars
      r == IF short THEN Resub(s1, s1.sub, {}, FALSE)
           ELSE [s |-> s1, u |-> s1.sub, tg |-> {}]
      useSearch == "r" \in r.tg
      g == IF useSearch \/ ~short
           THEN GetPattern(r.s, Cur(r.s), TRUE, useSearch)
           ELSE [s |-> r.s, pat |-> r.u.pat]
      \* toggles: only in the first pass of a global command
      live == ~InGlobal(s0) \/ s0.fp \/ s0.glob = 2
      t1 == [r.u EXCEPT !.pat = g.pat]
      t2 == IF live /\ "g" \in r.tg THEN [t1 EXCEPT !.g = ~@] ELSE t1
      t3 == IF live /\ "p" \in r.tg
            THEN IF t2.io = {} THEN [t2 EXCEPT !.io = {"p"}] ELSE [t2 EXCEPT !.prsw = ~@]
            ELSE t2
      h == IF short THEN [s |-> g.s, u |-> t3] ELSE SubRhs(g.s, t1)
      f == SuffixTo(h.s, {})
      u == [h.u EXCEPT !.io = @ \cup f.sfx, !.has = TRUE]
      s2 == [BeginChange(f) EXCEPT !.sub = u]
      re == Compile(u.pat.p, s0.opt.ere)
      x == SubLines(s2, u, re, s2.a1, s2.a2)
      s3 == [x.s EXCEPT !.nla = s2.nla]
  IN IF BadRc(s1) THEN s1
     ELSE IF BadRc(r.s) THEN r.s
     ELSE IF Cur(r.s) # NL /\ Nxt(r.s) = NL THEN Err(r.s, "Unknown command suffix")
     ELSE IF BadRc(g.s) THEN g.s
     ELSE IF short /\ ~g.pat.has THEN Err(g.s, "No previous substitution")
     ELSE IF BadRc(h.s) THEN h.s
     ELSE IF BadRc(f) THEN f
     ELSE IF x.hits = 0 /\ ~InGlobal(s0) THEN Err(s3, "No match")
     ELSE [s3 EXCEPT !.io = IF u.prsw THEN {} ELSE u.io]
=============================================================================
