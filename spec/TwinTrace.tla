------------------------------- MODULE TwinTrace -------------------------------
(* Pairs of recorded runs of the real library that must not differ: run A is   *)
(* the one with something extra (an arbitrary history before an initialisation *)
(* - M17, S10 - or the other side running in between - X03), run B the same    *)
(* calls and line events without it, in a fresh process.  Each line of the     *)
(* file holds both runs; map[i] is the event of A corresponding to event i of  *)
(* B.  The property is a statement about two runs; the specification is their  *)
(* product.                                                                    *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils

Pairs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES pid, i, bad

(* everything observable: what is sent, told to the application or changed     *)
Norm(o) == IF o.k = "chg" THEN [k |-> "chg", c |-> ToSet(o.c)] ELSE o
Outs(ev) == [j \in 1..Len(ev.o) |-> Norm(ev.o[j])]
Result(ev) == IF ev.e = "req" THEN ev.r ELSE 0

Init == pid \in 1..Len(Pairs) /\ i = 0 /\ bad = FALSE
Next == /\ i < Len(Pairs[pid].map)
        /\ i' = i + 1
        /\ pid' = pid
        /\ LET p == Pairs[pid]
               \* (a run that ended early crashed)
               same == /\ p.map[i'] <= Len(p.a) /\ i' <= Len(p.b)
                       /\ LET a == p.a[p.map[i']] b == p.b[i']
                          IN a.s = b.s /\ a.e = b.e /\ Outs(a) = Outs(b) /\ Result(a) = Result(b)
           IN /\ bad' = (bad \/ ~same)
              /\ (bad' = bad \/ PrintT(<<"DIFFER", pid, i'>>))
View == <<pid, i>>
Same == ~bad
===============================================================================
