------------------------------ MODULE MasterTour ------------------------------
(* MasterMC, printing its transition graph: tools/mktours.py computes paths    *)
(* that go through every transition, which are then replayed on the real code. *)
EXTENDS MasterMC, TLCExt
Out(ev) == LET z == OutX(ev) IN [o |-> z.o, r |-> z.r]
V == <<TLCFP(View[1]), TLCFP(View[2]), TLCFP(<<pend, left>>)>>
TInit == Init /\ PrintT(ToString(<<"I", V, [N |-> N, T |-> T, R |-> Rr, sync |-> Sync]>>))
TNext == \E ev \in Events : Do(ev) /\ PrintT(ToString(<<"E", V, ev, Out(ev), V'>>))
===============================================================================
