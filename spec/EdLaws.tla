------------------------------- MODULE EdLaws -------------------------------
(* Laws of the editor, stated with Run: what happens from state s when the   *)
(* input continues with given lines.  They say independently of the          *)
(* definitions of the commands what a user may rely on.                      *)
EXTENDS Ed

L(str) == Append(StrBytes(str), NL)
Texts(s) == [i \in DOMAIN s.buf |-> s.buf[i].t]
Ids(s) == [i \in DOMAIN s.buf |-> s.buf[i].id]
Failed(t) == Len(t.out) >= 2 /\ \E i \in 1..(Len(t.out) - 1) : t.out[i] = 63 /\ t.out[i + 1] = NL
Count(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Range2(p) : Count(p, x) = Count(q, x)

Law(name, s, blocks) == TRUE
=============================================================================
