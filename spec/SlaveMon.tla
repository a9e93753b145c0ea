-------------------------------- MODULE SlaveMon --------------------------------
(* The contract of the slave as a transition system over observable events,   *)
(* in the same way as MasterMon: SStep consumes one event (an application     *)
(* call or a driver event with everything the slave did during it, including  *)
(* every change of the application's data) and records in "bad" what the      *)
(* slave's doing violates.                                                    *)
EXTENDS ModbusPDU

CONSTANT K                   \* polls within which a due reaction must happen

SInit0(tabs) ==
  [ mode |-> "none", id |-> 0, oid |-> -1,
    tabs |-> tabs,           \* the application's data
    txing|-> FALSE,          \* a transmission is running
    act  |-> FALSE,          \* a reception has begun that no silence has ended yet
    rdy  |-> TRUE,           \* the slave was ready when it began
    seg  |-> <<>>,           \* its bytes
    segF |-> FALSE,          \* a framing error was reported in it
    t15s |-> {},             \* lengths it had when 1.5 characters of silence were reported
    cuts |-> {0},            \* positions where the slave may have discarded what came before
    np   |-> K,              \* polls since the last reception or transmission ended
    cands|-> <<>>,           \* intact requests that may be answered (the last eight)
    due  |-> <<>>,           \* the request that must be answered
    dist |-> FALSE,          \* a disturbance since the last answer
    crcb |-> FALSE,          \* the last frame with the slave's address had a wrong CRC
    lastf|-> <<>>,           \* the last frame received
    done |-> FALSE,          \* the last request was answered
    news |-> TRUE,           \* nothing answered since initialisation
    reini|-> FALSE,
    bad  |-> {} ]

SViol(m, ps, why) == [m EXCEPT !.bad = @ \cup {<<p, why>> : p \in ps}]
SCheck(m, ok, ps, why) == IF ok THEN m ELSE SViol(m, ps, why)
SMin2(a, b) == IF a < b THEN a ELSE b

(* ------------------------- what the line does --------------------------- *)
STouch(m) ==
  LET m1 == IF m.due # <<>> THEN [m EXCEPT !.due = <<>>, !.dist = TRUE] ELSE m
  IN  IF m1.act THEN m1
      ELSE LET rdy == m1.mode = "rtu" /\ ~m1.txing /\ m1.np >= K
           IN [m1 EXCEPT !.act = TRUE, !.seg = <<>>, !.segF = FALSE, !.t15s = {}, !.cuts = {0},
                         \* (what a slave that is ready has not answered yet, it will not answer)
                         !.cands = IF rdy THEN <<>> ELSE @, !.rdy = rdy, !.dist = @ \/ ~rdy]

SOnRx(m, b) == [STouch(m) EXCEPT !.seg = @ \o b]
SOnFerr(m) == [STouch(m) EXCEPT !.segF = TRUE, !.dist = TRUE]
SOnT15(m) == LET m1 == STouch(m)
             IN  IF m1.seg = <<>> THEN [m1 EXCEPT !.dist = TRUE] ELSE [m1 EXCEPT !.t15s = @ \cup {Len(m1.seg)}]

SIntact(id, f) == Len(f) >= 4 /\ f[1] = id /\ CrcOk(f)
SSegFrames(m) == IF m.segF THEN {}
                 ELSE {g \in {SubSeq(m.seg, c + 1, SMin2(p, c + 255)) : c \in m.cuts, p \in m.t15s \cup {Len(m.seg)}} :
                         SIntact(m.id, g)}             \* (drivers keep 255 bytes)
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
SWithCands(m) == LET n == SSegFrames(m)
                 IN LastN(SelectSeq(m.cands, LAMBDA g : g \notin n) \o SetToSeq(n), 8)

SOnT35(m) ==
  IF ~m.act THEN m
  ELSE IF m.seg # <<>> /\ Len(m.seg) \notin m.t15s
       THEN [STouch(m) EXCEPT !.rdy = FALSE, !.dist = TRUE, !.np = 0, !.cands = SWithCands(m)]
  ELSE
  LET f == m.seg
      gap == \E p \in m.t15s : p < Len(f)
      own == Len(f) > 0 /\ f[1] = m.id
      clean == SIntact(m.id, f) /\ ~m.segF /\ ~gap /\ m.cuts = {0} /\ ~Short(f) /\ ~Overlong(f) /\ Len(f) <= 255
      m1 == [m EXCEPT !.act = FALSE, !.np = 0, !.cands = SWithCands(m),
                      !.crcb = IF own THEN ~CrcOk(f) ELSE @, !.lastf = IF f = <<>> THEN @ ELSE f,
                      !.done = FALSE, !.dist = @ \/ ~clean,
                      !.seg = <<>>, !.segF = FALSE, !.t15s = {}, !.cuts = {0}]
  IN  IF clean /\ m.rdy /\ ~m.txing THEN [m1 EXCEPT !.due = f] ELSE m1

(* (an error or a silence without data during the transmission is over then)    *)
SOnTxDone(m) ==
  IF ~m.txing THEN m
  ELSE LET m1 == [m EXCEPT !.txing = FALSE, !.np = 0, !.rdy = FALSE]
       IN  IF m.act /\ m.seg = <<>> THEN [m1 EXCEPT !.act = FALSE, !.segF = FALSE] ELSE m1

(* -------------------------- what the slave does ------------------------- *)
(* w: set of <<table, address, value>> the application's data changed to      *)
WSet(t, w) == {<<t, a, w[a]>> : a \in DOMAIN w}
Explains(tabs, f, b, w) ==
  IF Short(f) THEN w = {} /\ \E e \in 1..4 : b = ExcResp(f, e)
  ELSE LET cs == ExcCodes(tabs, f)
           norm == IF cs = {} THEN b = PositiveResp(tabs, f) /\ w = WSet(Table(f[2]), Changes(tabs, f))
                   ELSE \E e \in cs : /\ b = ExcResp(f, e)
                                      /\ \/ w = {}
                                         \/ e = 4 /\ f[2] \in MultiFc /\ w \subseteq WSet(Table(f[2]), Writes(f))
       IN  norm \/ (Overlong(f) /\ w = {} /\ \E e \in 1..4 : b = ExcResp(f, e))

IsExc(b) == Len(b) = 5 /\ b[2] >= 128
WrongProps(m, f, b, w) ==
  LET cs == ExcCodes(m.tabs, f)
      ws == WSet(Table(f[2]), Changes(m.tabs, f))
  IN  IF Short(f) THEN {"S09"}
      ELSE (IF ~WellFormedAnswer(m.id, f, b) THEN {"S03"} ELSE {})
      \cup (IF \E x \in w : x[1] \in {"din", "inreg"} THEN {"S07"} ELSE {})
      \cup (IF Starved(f) /\ (~IsExc(b) \/ w # {}) THEN {"S09"} ELSE {})
      \cup (IF cs # {}
            THEN (IF \A e \in cs : b # ExcResp(f, e) THEN (IF IsExc(b) \/ WellFormedAnswer(m.id, f, b) THEN {"S06"} ELSE {}) ELSE {})
                 \cup (IF w # {} THEN {"S07"} ELSE {})
            ELSE (IF b # PositiveResp(m.tabs, f)
                  THEN (IF IsExc(b) THEN {"S06"} ELSE {}) \cup (IF f[2] \in ReadFc THEN {"S04"} ELSE {"S05"})
                  ELSE {})
                 \cup (IF f[2] \in ReadFc THEN (IF w # {} THEN {"S07"} ELSE {})
                       ELSE (IF w # ws THEN {"S05"} ELSE {})))

(* (an update of an item the model does not know is a violation already)       *)
SetW(tabs, w) == FoldSet(LAMBDA x, ts : [ts EXCEPT ![x[1]] = [@ EXCEPT ![x[2] + 1] = x[3]]], tabs, w)

SOnSend(m, b, w) ==
  LET cs == {i \in 1..Len(m.cands) : TRUE}
      ok == {i \in cs : Explains(m.tabs, m.cands[i], b, w)}
      f == IF m.due # <<>> THEN m.due ELSE m.cands[Len(m.cands)]
      m1 == [m EXCEPT !.tabs = SetW(@, w), !.txing = TRUE, !.cands = <<>>, !.due = <<>>,
                      !.dist = FALSE, !.done = TRUE, !.news = FALSE]
  IN  IF m.mode # "rtu" THEN SViol(m1, {"S10", "S02"}, "sends though not initialised for RTU")
      ELSE IF m.txing THEN SViol(m1, {"S02"}, "starts a transmission while the previous one is running")
      ELSE IF cs = {}
      THEN SViol(m1, {"S02"} \cup (IF m.crcb THEN {"X04"} ELSE {}) \cup (IF m.done THEN {"S01"} ELSE {})
                     \cup (IF w # {} THEN {"S07"} ELSE {})
                     \cup (IF m.reini /\ m.news /\ (m.lastf = <<>> \/ m.lastf[1] = m.oid) THEN {"S10"} ELSE {}),
                 "sends without having been properly asked")
      ELSE SCheck(m1, ok # {}, WrongProps(m, f, b, w), "wrong answer or effect of a request")

(* data changed though nothing was answered                                   *)
SOnChange(m, w) ==
  IF w = {} THEN m
  ELSE SViol([m EXCEPT !.tabs = SetW(@, w)],
             {"S07"} \cup (IF m.cands # <<>> /\ Short(m.cands[Len(m.cands)]) THEN {"S09"} ELSE {})
                     \cup (IF m.crcb THEN {"X04"} ELSE {}),
             "application data change without an answered request")

ChgSet(os) == UNION {{<<c[1], c[2], c[3]>> : c \in ToSet(os[i].c)} : i \in {j \in 1..Len(os) : os[j].k = "chg"}}
SOuts(m, os) ==
  LET w == ChgSet(os)
      S == SelectSeq(os, LAMBDA o : o.k \in {"tx", "td", "wire"})
      \* the changes belong to the first transmission
      Do(st, o) == CASE o.k = "tx" -> [m |-> SOnSend(st.m, o.b, st.w), w |-> {}]
                     [] o.k = "td" -> [m |-> SOnTxDone(st.m), w |-> st.w]
                     [] OTHER -> [m |-> SViol(st.m, {"S03"}, "answer changed while it was being transmitted"), w |-> st.w]
      r == FoldLeft(Do, [m |-> m, w |-> w], S)
  IN  SOnChange(r.m, r.w)

(* ------------------------------- one event ------------------------------- *)
SOnPoll(m, os) ==
  LET m0 == [m EXCEPT !.np = SMin2(@ + 1, K),
                      !.cuts = IF m.act /\ ~m.rdy THEN @ \cup {Len(m.seg)} ELSE @,
                      \* (an error reported without data may be forgotten)
                      !.segF = @ /\ m.rdy /\ m.seg # <<>>,
                      !.rdy = @ /\ ~(m.segF /\ m.seg = <<>>)]
      m1 == SOuts(m0, os)
  IN  IF m1.due # <<>> /\ m1.np >= K
      THEN SViol([m1 EXCEPT !.due = <<>>],
                 {"S01"} \cup (IF m1.dist THEN {"S08"} ELSE {}) \cup (IF m1.reini /\ m1.news THEN {"S10"} ELSE {})
                         \cup (IF ExcCodes(m1.tabs, m1.due) # {} THEN {"S06"} ELSE {}),
                 "a proper request is not answered")
      ELSE m1

SOnInit(m, ev, os) ==
  LET m1 == [SInit0(m.tabs) EXCEPT !.mode = IF ev.mode = 0 THEN "rtu" ELSE "other", !.id = ev.id,
                !.oid = IF m.mode = "none" THEN -1 ELSE m.id, !.reini = (m.mode # "none"),
                !.act = m.act, !.seg = m.seg, !.t15s = m.t15s, !.cuts = {Len(m.seg)}, !.rdy = FALSE, !.bad = m.bad]
      ini == SelectSeq(os, LAMBDA o : o.k = "init")
      m2 == SCheck(m1, ev.mode # 0 \/ (Len(ini) >= 1 /\ \A i \in 1..Len(ini) : ini[i].baud = ev.baud /\ ini[i].par = ev.par),
                   {"S10"}, "the driver is not initialised with the given settings")
      m3 == SCheck(m2, ChgSet(os) = {}, {"S10"}, "initialisation changes application data")
  IN  SOuts(m3, SelectSeq(os, LAMBDA o : o.k # "init"))

SlOuts(ev) == SelectSeq(ev.o, LAMBDA o : o.k = "chg" \/ ("s" \in DOMAIN o /\ o.s = "s"))

SStep(m, ev) ==
  IF ev.s # "s" THEN m
  ELSE
  LET os == SlOuts(ev)
  IN  CASE ev.e = "init" -> SOnInit(m, ev, os)
        [] ev.e = "poll" -> SOnPoll(m, os)
        [] ev.e = "app" -> SOuts([m EXCEPT !.tabs = [@ EXCEPT ![ev.t] = [@ EXCEPT ![ev.a + 1] = ev.v]]], os)
        [] ev.e = "rx" -> SOuts(SOnRx(m, ev.b), os)
        [] ev.e = "t15" -> SOuts(SOnT15(m), os)
        [] ev.e = "t35" -> SOuts(SOnT35(m), os)
        [] ev.e = "ferr" -> SOuts(SOnFerr(m), os)
        [] ev.e = "txdone" -> SOuts(SOnTxDone(m), os)
        [] OTHER -> m
=============================================================================
