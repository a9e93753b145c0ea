-------------------------------- MODULE SlaveMC --------------------------------
(* All behaviours of the implemented slave (SlaveSM), for small tables, under *)
(* every order of calls and line events, observed by the contract (SlaveMon). *)
EXTENDS SlaveSM, SlaveMon
CONSTANTS MaxSeg, Budget, Mut, Inits, RxSet, AppSet,
          Sync            \* the driver's send() returns when the transmission is over
VARIABLES x, tabs, m, pend, left

C == [mut |-> Mut]
Tabs0 == [coil |-> <<0, 1, 0, -1>>, din |-> <<1, 0, -1>>, inreg |-> <<258>>, hreg |-> <<5, 772>>]
Id == 1
G(s) == WithCrc(<<Id>> \o s)
Frames ==
  [ rdC |-> G(<<1, 0, 0, 0, 3>>), rdCmiss |-> G(<<1, 0, 1, 0, 3>>), rdCover |-> G(<<1, 0, 2, 0, 3>>),
    rdH |-> G(<<3, 0, 0, 0, 2>>), rdH0 |-> G(<<3, 0, 0, 0, 0>>), rdI |-> G(<<4, 0, 0, 0, 1>>), rdD |-> G(<<2, 0, 0, 0, 2>>),
    wC |-> G(<<5, 0, 0, 255, 0>>), wCbad |-> G(<<5, 0, 0, 1, 0>>), wR |-> G(<<6, 0, 1, 0, 9>>),
    wRover |-> G(<<6, 0, 2, 0, 9>>), wMR |-> G(<<16, 0, 0, 0, 2, 4, 0, 1, 0, 2>>), wMRbc |-> G(<<16, 0, 0, 0, 2, 3, 0, 1, 0>>),
    wMC |-> G(<<15, 0, 0, 0, 3, 1, 5>>), wMCmiss |-> G(<<15, 0, 2, 0, 2, 1, 3>>),
    unk |-> G(<<7>>), short |-> G(<<6, 0, 1>>), over |-> G(<<6, 0, 1, 0, 9, 1>>),
    badcrc |-> <<1, 6, 0, 1, 0, 9, 1, 1>>, foreign |-> WithCrc(<<2, 6, 0, 1, 0, 9>>), bcast |-> WithCrc(<<0, 6, 0, 1, 0, 9>>),
    h1 |-> SubSeq(G(<<6, 0, 1, 0, 9>>), 1, 5), h2 |-> SubSeq(G(<<6, 0, 1, 0, 9>>), 6, 8), byte |-> <<1>> ]
Apps == [a1 |-> [t |-> "hreg", a |-> 0, v |-> 7], a2 |-> [t |-> "coil", a |-> 1, v |-> -1]]
Ev(e) == [s |-> "s", e |-> e, o |-> <<>>]
LineEvents == {Ev("t15"), Ev("t35"), Ev("ferr")} \cup
  {Ev("rx") @@ [b |-> Frames[f]] : f \in {g \in RxSet \ {"dup"} : Len(m.seg) + Len(Frames[g]) <= MaxSeg}}
Events ==
  {Ev("poll")}
  \cup (IF left > 0 THEN LineEvents ELSE {})
  \cup (IF pend > 0 \/ ("dup" \in RxSet /\ left > 0) THEN {Ev("txdone")} ELSE {})   \* dup: reports of no transmission
  \cup {Ev("app") @@ Apps[r] : r \in AppSet}
  \cup (IF Inits /\ ~m.reini THEN {Ev("init") @@ [mode |-> 0, baud |-> 1, par |-> 0, id |-> 2]} ELSE {})

OutX(ev) ==
  LET z == SSStep(C, x, tabs, ev)
  IN  IF Sync /\ \E i \in 1..Len(z.o) : z.o[i].k = "tx"
      THEN [z EXCEPT !.x = SSStep(C, z.x, z.tabs, Ev("txdone")).x, !.o = Append(@, [k |-> "td"])]
      ELSE z
OutsOf(ev, z) == IF ev.e = "init" THEN <<[k |-> "init", s |-> "s", baud |-> ev.baud, par |-> ev.par]>>
                 ELSE [i \in 1..Len(z.o) |-> z.o[i] @@ [s |-> "s"]]
Do(ev) ==
  LET z == OutX(ev)
      e1 == [ev EXCEPT !.o = OutsOf(ev, z)]
      sent == \E i \in 1..Len(z.o) : z.o[i].k = "tx"
  IN  /\ x' = z.x
      /\ tabs' = z.tabs
      /\ m' = SStep(m, e1)
      /\ pend' = IF ev.e \in {"txdone", "init"} THEN 0 ELSE IF sent /\ ~Sync THEN 1 ELSE pend
      /\ left' = IF sent THEN Budget ELSE IF ev.e \in {"rx", "t15", "t35", "ferr"} \/ (ev.e = "txdone" /\ pend = 0) THEN left - 1 ELSE left

evInit == Ev("init") @@ [mode |-> 0, baud |-> 1, par |-> 0, id |-> Id]
Init == /\ x = SSInit(C, SSInit0, evInit)
        /\ tabs = Tabs0
        /\ m = [SInit0(Tabs0) EXCEPT !.mode = "rtu", !.id = Id]
        /\ pend = 0
        /\ left = Budget
Next == \E ev \in Events : Do(ev)
Bound == Len(x.buf) <= MaxSeg + 8
View == <<x, [m EXCEPT !.lastf = <<>>], pend, left>>     \* (tabs = m.tabs)

NoBad == m.bad = {}
Agree == m.tabs = tabs /\ (m.txing => x.st = "TX") /\ (x.st = "TX" => m.txing \/ ~x.ftx)
Structure == x.st \in {"IDLE", "MSG", "TX"} /\ (x.st # "TX" => ~x.ftx) /\ \A t \in Kinds : DOMAIN tabs[t] = DOMAIN Tabs0[t]
ReadOnly == tabs.din = Tabs0.din /\ tabs.inreg = Tabs0.inreg
Alias == [st |-> x.st, fl |-> <<x.f15, x.f35, x.fe, x.ftx, x.l15>>, buf |-> x.buf, rdy |-> m.rdy, np |-> m.np, act |-> m.act,
          seg |-> <<m.seg, m.t15s, m.cuts, m.segF>>, due |-> m.due, cands |-> m.cands, tx |-> m.txing, bad |-> m.bad]
===============================================================================
