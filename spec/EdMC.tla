-------------------------------- MODULE EdMC --------------------------------
(* Exhaustive exploration of the editor over a finite set of input blocks.   *)
(* A configuration (JSON) gives the session skeleton, the blocks - each a    *)
(* short run of input lines - and the depth.  From every reachable state     *)
(* every block is tried; each transition is reported, so that the same       *)
(* transitions can be replayed on the real editor, and the laws of module    *)
(* EdLaws are checked on it.                                                  *)
EXTENDS EdLaws, Json, IOUtils, TLCExt

Conf == JsonDeserialize(IOEnv.EDMC)
X == Conf.session
Blocks == Conf.blocks
Depth == Conf.depth

VARIABLES s, d
vars == <<s, d>>

Trim(t) == [t EXCEPT !.in = <<>>, !.ip = 1, !.out = <<>>, !.inp = <<>>, !.p = 1]

(***************************************************************************)
(* Line identities only matter up to renaming, and only those of lines in   *)
(* the buffer or in the remembered state.                                   *)
(***************************************************************************)
Norm(t) ==
  LET bi == [i \in DOMAIN t.buf |-> t.buf[i].id]
      ui == IF t.u.ok THEN [i \in DOMAIN t.u.buf |-> t.u.buf[i].id] ELSE <<>>
      all == bi \o SelectSeq(ui, LAMBDA x : x \notin Range2(bi))
      ix == [x \in Range2(all) |-> CHOOSE k \in DOMAIN all : all[k] = x]
      ren(b) == [i \in DOMAIN b |-> [id |-> ix[b[i].id], t |-> b[i].t]]
  IN [t EXCEPT !.buf = ren(@), !.u.buf = IF t.u.ok THEN ren(@) ELSE @, !.nid = 0,
               !.mk = [c \in DOMAIN @ |-> IF @[c] = 0 THEN 0
                                          ELSE IF @[c] \in DOMAIN ix THEN ix[@[c]] ELSE -1],
               !.ad = 0, !.a1 = 0, !.a2 = 0, !.rr = 0, !.rw = 0, !.ra = FALSE, !.gb = FALSE,
               !.glob = 0, !.fp = FALSE, !.gsp = 0, !.gq = <<>>, !.io = {}, !.sfx = {},
               !.ib = FALSE, !.sh = <<>>, !.opt = 0]

View == Norm(s)

Files(t) == LET ns == SetToSeq(DOMAIN t.fs)
            IN [i \in DOMAIN ns |-> [n |-> ns[i], k |-> t.fs[ns[i]].k, d |-> t.fs[ns[i]].d]]
Report(f, b, t) ==
  PrintT("EDGE " \o ToJson([p |-> TLCFP(Norm(f)), b |-> b, q |-> TLCFP(Norm(Trim(t))), o |-> t.out,
                            x |-> t.pc, s |-> t.status, f |-> Files(t)]))

Init == /\ s = Trim(Run(NewState(X), X.in))
        /\ d = 0
        /\ PrintT("ROOT " \o ToJson([p |-> TLCFP(Norm(s)), o |-> Run(NewState(X), X.in).out]))

Try(b) == LET t == Run(s, Blocks[b])
          IN /\ t.pc # "unsup"
             /\ Report(s, b, t)
             /\ s' = Trim(t)
             /\ d' = d + 1
Next == d < Depth /\ Running(s) /\ \E b \in DOMAIN Blocks : Try(b)

(***************************************************************************)
(* Invariants: the state is well formed; and the laws, from every state.    *)
(***************************************************************************)
WellFormed == StateOK(s)
Laws == \A i \in DOMAIN Conf.laws : Running(s) => Law(Conf.laws[i], s, Blocks)
=============================================================================
