------------------------------ MODULE SystemTour ------------------------------
(* SystemMC, printing its transition graph (see MasterTour).                   *)
EXTENDS SystemMC, TLCExt
V == <<TLCFP(SubSeq(View, 1, 2)), TLCFP(SubSeq(View, 3, 5)), TLCFP(SubSeq(View, 6, Len(View)))>>
TInit == Init /\ PrintT(ToString(<<"I", V, [N |-> N, T |-> T, R |-> Rr, id |-> Id, tabs |-> Tabs0, clean |-> y.clean]>>))
TNext == Next /\ PrintT(ToString(<<"E", V, act'.ev, [o |-> act'.o, r |-> act'.r], V'>>))
===============================================================================
