------------------------------- MODULE MasterMC -------------------------------
(* All behaviours of the implemented master (MasterSM), for small constants,  *)
(* under every order of calls and line events, observed by the contract       *)
(* (MasterMon).  A property holds on the model if the contract never records  *)
(* its violation: INVARIANT NoBad (all of them), Structure, and for liveness  *)
(* PROPERTY Progress.                                                         *)
EXTENDS MasterSM, MasterMon
CONSTANTS N, T, Rr, MaxSeg, Budget, Mut, Inits, RxSet, ReqSet,
          Sync,           \* the driver's send() returns when the transmission is over
          Nest            \* the application also makes requests from within its callbacks
VARIABLES x, m, pend,     \* pend: transmissions the driver has not yet reported done
          left            \* line events that may still happen before the master's next doing

C == [N |-> N, T |-> T, R |-> Rr, mut |-> Mut]

rA == [fc |-> 1, a |-> 0, q |-> 1, id |-> 1, v |-> <<>>]
rB == [fc |-> 6, a |-> 7, q |-> 1, id |-> 2, v |-> <<5>>]
rX == [fc |-> 3, a |-> 0, q |-> 126, id |-> 1, v |-> <<>>]      \* outside the limits
Reqs == [A |-> rA, B |-> rB, X |-> rX]
Good  == WithCrc(<<1, 1, 1, 1>>)
GoodB == Encode(rB)
Frames == [ good |-> Good, goodB |-> GoodB, exc |-> WithCrc(<<1, 129, 2>>),
            badcrc |-> <<1, 1, 1, 1, 0, 0>>, foreign |-> WithCrc(<<3, 1, 1, 1>>),
            misfit |-> WithCrc(<<1, 2, 1, 1>>), half1 |-> SubSeq(Good, 1, 3), half2 |-> SubSeq(Good, 4, 6),
            byte |-> <<1>> ]
Ev(e) == [s |-> "m", e |-> e, o |-> <<>>]
LineEvents == {Ev("t15"), Ev("t35"), Ev("ferr")} \cup
  {Ev("rx") @@ [b |-> Frames[f]] : f \in {g \in RxSet \ {"dup"} : Len(m.seg) + Len(Frames[g]) <= MaxSeg}}
Events ==
  {Ev("poll")} \cup (IF Nest THEN {Ev("poll") @@ [nst |-> Reqs[r]] : r \in ReqSet} ELSE {})
  \cup {Ev("tick") @@ [n |-> 1]} 
  \cup (IF left > 0 THEN LineEvents ELSE {})
  \cup (IF pend > 0 \/ ("dup" \in RxSet /\ left > 0) THEN {Ev("txdone")} ELSE {})   \* dup: reports of no transmission
  \cup {Ev("req") @@ Reqs[r] : r \in ReqSet}
  \cup (IF Inits /\ ~m.reini THEN {Ev("init") @@ [mode |-> 0, baud |-> 1, par |-> 0]} ELSE {})

(* what happens in an event, with what happens within it (callbacks, send())   *)
Concludes(o) == \E i \in 1..Len(o) : o[i].k \in {"rd", "wr", "exc", "to", "ce"}
NestR(r) == [k |-> "req", fc |-> r.fc, a |-> r.a, q |-> r.q, id |-> r.id, v |-> r.v]
OutX(ev) ==
  LET z0 == SMStep(C, x, ev)
      nst == "nst" \in DOMAIN ev
      td == Sync /\ \E i \in 1..Len(z0.o) : z0.o[i].k = "tx"
      within == (IF nst THEN <<NestR(ev.nst)>> ELSE <<>>) \o (IF td THEN <<[k |-> "td", s |-> "m"]>> ELSE <<>>)
      z == SMWithin(C, z0, within)
  IN  [z EXCEPT !.o = @ \o (IF nst THEN <<NestR(ev.nst) @@ [r |-> z.nr[1]]>> ELSE <<>>)
                        \o (IF td THEN <<[k |-> "td", s |-> "m"]>> ELSE <<>>)]
OutsOf(ev, z) == IF ev.e = "init" THEN <<[k |-> "init", baud |-> ev.baud, par |-> ev.par]>> ELSE z.o
Do(ev) ==
  /\ "nst" \in DOMAIN ev => Concludes(SMStep(C, x, ev).o)
  /\ LET z == OutX(ev)
         e1 == [ev EXCEPT !.o = OutsOf(ev, z)] @@ [r |-> z.r]
         sent == ~Sync /\ \E i \in 1..Len(z.o) : z.o[i].k = "tx"
     IN  /\ x' = z.x
         /\ m' = MStep(C, m, e1)
         /\ pend' = IF ev.e \in {"txdone", "init"} THEN 0 ELSE IF sent THEN 1 ELSE pend
         /\ left' = IF z.o # <<>> THEN Budget ELSE IF ev.e \in {"rx", "t15", "t35", "ferr"} \/ (ev.e = "txdone" /\ pend = 0) THEN left - 1 ELSE left

evInit == Ev("init") @@ [mode |-> 0, baud |-> 1, par |-> 0]
Init == /\ x = SMInit(C, SMInit0(C), evInit)
        /\ m = [MInit0 EXCEPT !.mode = "rtu"]
        /\ pend = 0
        /\ left = Budget
Next == \E ev \in Events : Do(ev)
vars == <<x, m, pend, left>>

(* what is received before a transmission is done is discarded then           *)
View == <<[x EXCEPT !.d0 = 0, !.rb = IF Mut = "none" /\ (x.st \in {"IDLE", "REP"} \/ x.ftx) THEN <<>> ELSE @],
          [m EXCEPT !.ref = {}], pend, left>>
Fair == /\ WF_vars(\E ev \in {Ev("poll")} : Do(ev))
Bound == Len(m.cands) <= 2 /\ Len(x.rb[1]) <= MaxSeg + 6

(* ------------------------------ properties ------------------------------- *)
NoBad == m.bad = {}
Alias == [st |-> x.st, fl |-> <<x.ftx, x.f15, x.f35, x.fe, x.fcrc>>, rb |-> x.rb, tm |-> x.timer,
          ph |-> m.ph, tk |-> <<m.tk, m.tkp>>, np |-> m.np, act |-> m.act, seg |-> <<m.seg, m.t15s, m.cuts, m.segF>>, due |-> m.due,
          am |-> <<m.dmg, m.amb>>, cands |-> m.cands, bad |-> m.bad, pend |-> pend]
(* every message slot is in exactly one place *)
Structure ==
  /\ Len(x.free) + Len(x.txq) + (IF x.cur # 0 THEN 1 ELSE 0) = N
  /\ Cardinality(ToSet(x.free) \cup {x.txq[i].s : i \in 1..Len(x.txq)} \cup (IF x.cur # 0 THEN {x.cur} ELSE {})) = N
  /\ (x.st = "IDLE") = (x.cur = 0)
  /\ x.rep <= Rr
  /\ x.timer <= T
  /\ x.st \in {"WAIT", "RCV"} => ~x.ftx
(* the contract's view and the implementation's agree *)
Agree ==
  /\ Len(m.q) = Len(x.txq)
  /\ (m.ph = 0) = (x.cur = 0)
  /\ m.ph = 1 => x.st = "TX"
  /\ m.ph # 0 => m.att = x.rep + 1 \/ x.st = "REP"
===============================================================================
