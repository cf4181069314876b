------------------------------ MODULE EdTrace -------------------------------
(* Validation of recorded sessions of the real editor.  A session gives the  *)
(* options, the files, the input and what the shell commands in it do; and,  *)
(* as recorded, everything ed printed, its exit status and the files after.  *)
(* The machine of module Ed must print exactly that.                         *)
EXTENDS Ed, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.EDTRACE)

VARIABLES sid, s, pos
vars == <<sid, s, pos>>

TraceInit == /\ sid \in DOMAIN Sessions
             /\ s = NewState(Sessions[sid])
             /\ pos = 0

Recorded == Sessions[sid].out
Say(verdict, what) == PrintT(<<verdict, sid, s.ip, pos, what>>)

\* The next step prints what was recorded.
TraceStep ==
  /\ Running(s)
  /\ LET t == Step(s)
     IN IF t.pc = "unsup" THEN Say("UNSUP", t.inp) /\ FALSE
        ELSE IF ~IsPrefixAt(t.out, Recorded, pos + 1) THEN Say("REJECT", <<"out", t.inp, t.out>>) /\ FALSE
        ELSE IF ~StateOK(t) THEN Say("REJECT", <<"state", t.inp>>) /\ FALSE
        ELSE /\ s' = [t EXCEPT !.out = <<>>]
             /\ pos' = pos + Len(t.out)
             /\ sid' = sid

\* At exit: all output explained, exit status and files as recorded.
Final == Sessions[sid].fin
FilesOK ==
  /\ \A i \in DOMAIN Final :
       Final[i].n \in DOMAIN s.fs
         /\ LET f == s.fs[Final[i].n]
            IN f.k \in {"unk", "dir", "fifo"} \/ f.d = Final[i].d
  /\ \A n \in DOMAIN s.fs : \E i \in DOMAIN Final : Final[i].n = n
TraceEnd ==
  /\ s.pc = "exit"
  /\ IF pos # Len(Recorded) THEN Say("REJECT", <<"more", SubSeq(Recorded, pos + 1, Min2(pos + 40, Len(Recorded)))>>)
     ELSE IF s.status # Sessions[sid].status THEN Say("REJECT", <<"status", s.status>>)
     ELSE IF Sessions[sid].left # <<>> THEN Say("REJECT", <<"temporary files", Sessions[sid].left>>)
     ELSE IF ~FilesOK THEN Say("REJECT", <<"files", [n \in DOMAIN s.fs |-> s.fs[n].d]>>)
     ELSE Say("ACCEPT", s.status)
  /\ FALSE
  /\ UNCHANGED vars

TraceNext == TraceStep \/ TraceEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars

=============================================================================
