------------------------------ MODULE MasterLive ------------------------------
(* Liveness of the implemented master (M06): with an application that keeps    *)
(* polling and ticking and a driver that reports the end of transmissions and  *)
(* of receptions, every accepted request concludes - after any line events,    *)
(* in any order, of which there are finitely many (Noise).                     *)
EXTENDS MasterSM
CONSTANTS N, T, Rr, Noise, MaxReq, Mut, Sync
VARIABLES x,
          pend,              \* a transmission is running
          line,              \* "quiet", "data" (bytes no silence has followed), "gap" (1.5 characters)
          noise, nreq

C == [N |-> N, T |-> T, R |-> Rr, mut |-> Mut]
rA == [fc |-> 1, a |-> 0, q |-> 1, id |-> 1, v |-> <<>>]
rX == [fc |-> 3, a |-> 0, q |-> 126, id |-> 1, v |-> <<>>]
Frames == { WithCrc(<<1, 1, 1, 1>>), <<1, 1, 1, 1, 0, 0>>, WithCrc(<<3, 1, 1, 1>>), WithCrc(<<1, 2, 1, 1>>), <<1>>, <<7>> }
Ev(e) == [s |-> "m", e |-> e, o |-> <<>>]
Sent(z) == \E i \in 1..Len(z.o) : z.o[i].k = "tx"

Poll == LET z == SMStep(C, x, Ev("poll"))
        IN  /\ x' = IF Sent(z) /\ Sync THEN SMTxDone(C, z.x) ELSE z.x
            /\ pend' = (pend \/ (Sent(z) /\ ~Sync))
            /\ UNCHANGED <<line, noise, nreq>>
Tick == x' = SMStep(C, x, Ev("tick") @@ [n |-> 1]).x /\ UNCHANGED <<pend, line, noise, nreq>>
TxDone == pend /\ x' = SMStep(C, x, Ev("txdone")).x /\ pend' = FALSE /\ UNCHANGED <<line, noise, nreq>>
Req == /\ nreq > 0 /\ nreq' = nreq - 1
       /\ \E r \in {rA, rX} : x' = SMReq(C, x, Ev("req") @@ r).x
       /\ UNCHANGED <<pend, line, noise>>
(* the line: anything while there is noise; the silences that end a reception always come *)
Rx == noise > 0 /\ \E f \in Frames : x' = SMRx(x, f) /\ line' = "data" /\ noise' = noise - 1 /\ UNCHANGED <<pend, nreq>>
Ferr == noise > 0 /\ x' = SMStep(C, x, Ev("ferr")).x /\ noise' = noise - 1 /\ UNCHANGED <<pend, line, nreq>>
T15 == /\ line = "data" \/ noise > 0
       /\ x' = SMStep(C, x, Ev("t15")).x /\ line' = "gap"
       /\ noise' = IF line = "data" THEN noise ELSE noise - 1
       /\ UNCHANGED <<pend, nreq>>
T35 == /\ line = "gap" \/ noise > 0
       /\ x' = SMStep(C, x, Ev("t35")).x /\ line' = IF line = "gap" THEN "quiet" ELSE line
       /\ noise' = IF line = "gap" THEN noise ELSE noise - 1
       /\ UNCHANGED <<pend, nreq>>
E15 == line = "data" /\ T15
E35 == line = "gap" /\ T35

Init == /\ x = SMInit(C, SMInit0(C), Ev("init") @@ [mode |-> 0])
        /\ pend = FALSE /\ line = "quiet" /\ noise = Noise /\ nreq = MaxReq
Next == Poll \/ Tick \/ TxDone \/ Req \/ Rx \/ Ferr \/ T15 \/ T35
vars == <<x, pend, line, noise, nreq>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Poll) /\ WF_vars(Tick) /\ WF_vars(TxDone) /\ WF_vars(E15) /\ WF_vars(E35)

Busy == x.cur # 0 \/ x.txq # <<>>
Progress == Busy ~> ~Busy
Slots == ~Busy => Len(x.free) = N
===============================================================================
