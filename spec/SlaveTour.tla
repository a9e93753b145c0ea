------------------------------- MODULE SlaveTour -------------------------------
(* SlaveMC, printing its transition graph (see MasterTour).                    *)
EXTENDS SlaveMC, TLCExt
Out(ev) == LET z == OutX(ev) IN [o |-> z.o, r |-> 0]
V == <<TLCFP(View[1]), TLCFP(View[2]), TLCFP(<<pend, left>>)>>
TInit == Init /\ PrintT(ToString(<<"I", V, [id |-> Id, tabs |-> Tabs0, sync |-> Sync]>>))
TNext == \E ev \in Events : Do(ev) /\ PrintT(ToString(<<"E", V, ev, Out(ev), V'>>))
================================================================================
