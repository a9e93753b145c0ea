-------------------------------- MODULE SystemMC --------------------------------
(* Master and slave as implemented (MasterSM, SlaveSM), connected by a half-  *)
(* duplex line that may lose, damage or cut frames, under every order of      *)
(* polls, ticks, application calls and line events, observed by the contracts *)
(* of both sides and of the system (MasterMon, SlaveMon, SystemMon).          *)
(* Timely: the slave answers within the response time (ticks happen only when *)
(* no answer is under way).  Without it a late answer can be taken for that   *)
(* to the next request - Modbus RTU cannot tell them apart - and X01 fails,   *)
(* which is why X01 and X02 are stated under that assumption.                 *)
EXTENDS MasterSM, MasterMon
CONSTANTS N, T, Rr, Timely, MaxReq, MaxLoss, MaxApp, ReqSet, Faults, Mut
SM == INSTANCE SlaveSM
SL == INSTANCE SlaveMon
SY == INSTANCE SystemMon

VARIABLES xm, mm,            \* the master: implementation, contract
          xs, tabs, sm,      \* the slave: implementation, data, contract
          y,                 \* the system's contract
          toS, toM,          \* line events on their way to the slave, to the master
          pm, ps,            \* what each side is transmitting
          nreq, nloss, napp,
          act                \* the event that led here, and what the side called did (not part of the view)

C == [N |-> N, T |-> T, R |-> Rr, mut |-> Mut]
Id == 1
Tabs0 == [coil |-> <<0, 1, 0, -1>>, din |-> <<1, 0, -1>>, inreg |-> <<258>>, hreg |-> <<5, 772>>]
Reqs == [ rd    |-> [fc |-> 3, a |-> 0, q |-> 2, id |-> 1, v |-> <<>>],
          rd1   |-> [fc |-> 3, a |-> 1, q |-> 1, id |-> 1, v |-> <<>>],
          rdC   |-> [fc |-> 1, a |-> 0, q |-> 2, id |-> 1, v |-> <<>>],
          over  |-> [fc |-> 3, a |-> 1, q |-> 2, id |-> 1, v |-> <<>>],
          miss  |-> [fc |-> 2, a |-> 1, q |-> 2, id |-> 1, v |-> <<>>],
          wr    |-> [fc |-> 6, a |-> 0, q |-> 1, id |-> 1, v |-> <<9>>],
          wrC   |-> [fc |-> 5, a |-> 0, q |-> 1, id |-> 1, v |-> <<1>>],
          wrs   |-> [fc |-> 16, a |-> 0, q |-> 2, id |-> 1, v |-> <<1, 65535>>],
          wover |-> [fc |-> 6, a |-> 2, q |-> 1, id |-> 1, v |-> <<9>>],
          other |-> [fc |-> 6, a |-> 0, q |-> 1, id |-> 2, v |-> <<8>>],
          bad   |-> [fc |-> 3, a |-> 0, q |-> 126, id |-> 1, v |-> <<>>] ]

MEv(e) == [s |-> "m", e |-> e, o |-> <<>>]
SEv(e) == [s |-> "s", e |-> e, o |-> <<>>]

(* what arrives of a frame *)
Damage(f) == [f EXCEPT ![Len(f)] = IF @ = 0 THEN 1 ELSE 0]
Arrives(f, fault) ==
  LET all == <<[e |-> "rx", b |-> f], [e |-> "t15"], [e |-> "t35"]>>
  IN CASE fault = "none" -> all
       [] fault = "lost" -> <<>>
       [] fault = "crc"  -> <<[e |-> "rx", b |-> Damage(f)], [e |-> "t15"], [e |-> "t35"]>>
       [] fault = "cut"  -> <<[e |-> "rx", b |-> SubSeq(f, 1, Len(f) - 3)], [e |-> "t15"], [e |-> "t35"]>>
       [] fault = "ferr" -> <<[e |-> "rx", b |-> SubSeq(f, 1, 3)], [e |-> "ferr"], [e |-> "t15"], [e |-> "t35"]>>
       [] fault = "tail" -> <<[e |-> "rx", b |-> SubSeq(f, 3, Len(f))], [e |-> "t15"], [e |-> "t35"]>>

(* ------------------------------ the master ------------------------------- *)
DoM(ev) ==
  LET z == SMStep(C, xm, ev)
      e1 == [ev EXCEPT !.o = z.o] @@ [r |-> z.r]
      tx == SelectSeq(z.o, LAMBDA o : o.k = "tx")
      m1 == MStep(C, mm, e1)
  IN  /\ xm' = z.x
      /\ mm' = m1
      /\ y' = SY!YStep(y, mm, sm, sm, e1)
      /\ pm' = IF ev.e = "txdone" THEN <<>> ELSE IF tx # <<>> THEN tx[1].b ELSE pm
      /\ act' = [ev |-> ev, o |-> z.o, r |-> z.r]
      /\ UNCHANGED <<xs, tabs, sm, ps>>
DoS(ev) ==
  LET z == SM!SSStep([mut |-> Mut], xs, tabs, ev)
      e1 == [ev EXCEPT !.o = [i \in 1..Len(z.o) |-> z.o[i] @@ [s |-> "s"]]]
      tx == SelectSeq(z.o, LAMBDA o : o.k = "tx")
      s1 == SL!SStep(sm, e1)
  IN  /\ xs' = z.x
      /\ tabs' = z.tabs
      /\ sm' = s1
      /\ y' = SY!YStep(y, mm, sm, s1, e1)
      /\ ps' = IF ev.e = "txdone" THEN <<>> ELSE IF tx # <<>> THEN tx[1].b ELSE ps
      /\ act' = [ev |-> ev, o |-> z.o, r |-> 0]
      /\ UNCHANGED <<xm, mm, pm>>

Quiet == toS = <<>> /\ toM = <<>> /\ ps = <<>> /\ xs.st = "IDLE" /\ xs.buf = <<>> /\ sm.due = <<>> /\ ~sm.act /\ ~mm.act /\ mm.np >= K

MReq == /\ nreq > 0 /\ nreq' = nreq - 1
        /\ \E r \in ReqSet : DoM(MEv("req") @@ Reqs[r])
        /\ UNCHANGED <<toS, toM, nloss, napp>>
MPoll == DoM(MEv("poll")) /\ UNCHANGED <<toS, toM, nreq, nloss, napp>>
MTick == /\ Timely => Quiet
         /\ DoM(MEv("tick") @@ [n |-> 1]) /\ UNCHANGED <<toS, toM, nreq, nloss, napp>>
MTxDone == /\ pm # <<>> /\ toS = <<>>
           /\ \E f \in Faults : /\ f = "none" \/ nloss > 0
                                /\ nloss' = IF f = "none" THEN nloss ELSE nloss - 1
                                /\ toS' = Arrives(pm, f)
           /\ DoM(MEv("txdone"))
           /\ UNCHANGED <<toM, nreq, napp>>
MLine == /\ toM # <<>>
         /\ DoM([s |-> "m", o |-> <<>>] @@ Head(toM)) /\ toM' = Tail(toM)
         /\ UNCHANGED <<toS, nreq, nloss, napp>>
SPoll == DoS(SEv("poll")) /\ UNCHANGED <<toS, toM, nreq, nloss, napp>>
STxDone == /\ ps # <<>> /\ toM = <<>>
           /\ \E f \in Faults : /\ f = "none" \/ nloss > 0
                                /\ nloss' = IF f = "none" THEN nloss ELSE nloss - 1
                                /\ toM' = Arrives(ps, f)
           /\ DoS(SEv("txdone"))
           /\ UNCHANGED <<toS, nreq, napp>>
SLine == /\ toS # <<>>
         /\ DoS([s |-> "s", o |-> <<>>] @@ Head(toS)) /\ toS' = Tail(toS)
         /\ UNCHANGED <<toM, nreq, nloss, napp>>
SApp == /\ napp > 0 /\ napp' = napp - 1
        /\ DoS(SEv("app") @@ [t |-> "hreg", a |-> 1, v |-> 7])
        /\ UNCHANGED <<toS, toM, nreq, nloss>>

Init ==
  /\ xm = SMInit(C, SMInit0(C), MEv("init") @@ [mode |-> 0])
  /\ mm = [MInit0 EXCEPT !.mode = "rtu"]
  /\ xs = SM!SSInit([mut |-> Mut], SM!SSInit0, SEv("init") @@ [mode |-> 0, id |-> Id])
  /\ tabs = Tabs0
  /\ sm = [SL!SInit0(Tabs0) EXCEPT !.mode = "rtu", !.id = Id]
  /\ y = [SY!YInit0 EXCEPT !.on = TRUE, !.clean = (MaxLoss = 0 /\ Timely)]
  /\ toS = <<>> /\ toM = <<>> /\ pm = <<>> /\ ps = <<>>
  /\ nreq = MaxReq /\ nloss = MaxLoss /\ napp = MaxApp
  /\ act = <<>>
Next == MReq \/ MPoll \/ MTick \/ MTxDone \/ MLine \/ SPoll \/ STxDone \/ SLine \/ SApp
vars == <<xm, mm, xs, tabs, sm, y, toS, toM, pm, ps, nreq, nloss, napp, act>>
View == <<[xm EXCEPT !.d0 = 0, !.rb = IF xm.st \in {"IDLE", "REP"} \/ xm.ftx THEN <<>> ELSE @], [mm EXCEPT !.ref = {}],
          xs, [sm EXCEPT !.lastf = <<>>], y, toS, toM, pm, ps, nreq, nloss, napp>>

NoBad == mm.bad = {} /\ sm.bad = {} /\ y.bad = {}
Agree == /\ sm.tabs = tabs
         /\ pm # <<>> <=> mm.ph = 1
         /\ ps # <<>> <=> sm.txing
(* the master and the slave never transmit at the same time on a timely line *)
HalfDuplex == Timely => ~(pm # <<>> /\ ps # <<>>)
Alias == [m |-> <<xm.st, mm.ph, mm.att, mm.due, mm.dmg, mm.amb>>, s |-> <<xs.st, sm.due, sm.rdy, sm.np>>, toS |-> toS, toM |-> toM,
          pm |-> pm, ps |-> ps, tabs |-> tabs, serv |-> Len(y.serv), bad |-> <<mm.bad, sm.bad, y.bad>>]
Reach == ~(nreq = 0 /\ mm.ph = 0 /\ mm.q = <<>>)      \* (violated: the end is reached)
===============================================================================
