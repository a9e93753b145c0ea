------------------------------- MODULE MasterSM -------------------------------
(* The master as it is implemented: modbus_master.c with its message queues,  *)
(* flags, timer, repetition counter and receive buffers, one operator per     *)
(* application call or driver callback.  Each returns the successor state and *)
(* what the master does to the outside.  c = [N, T, R, mut] is the            *)
(* configuration; mut = "none" is the code as it is, any other value puts one *)
(* of the defects found in the original code, or a typical mistake, back in,  *)
(* which shows that the properties checked in MasterMC are not vacuous.       *)
EXTENDS ModbusPDU

SMInit0(c) ==
  [ st |-> "IDLE", on |-> "none",
    ftx |-> FALSE, f15 |-> FALSE, f35 |-> FALSE, fe |-> FALSE, fcrc |-> FALSE,
    timer |-> 0, rep |-> 0,
    l15 |-> 0,                                \* bytes received when the last 1.5 silence was reported
    free |-> <<>>, txq |-> <<>>,              \* slots; slots with their request
    cur |-> 0, req |-> <<>>,                  \* slot in progress and its request frame
    rxs |-> 0,                                \* slot whose buffer the driver fills
    rb |-> [s \in 1..c.N |-> <<>>],           \* received bytes (data[0..len-1])
    d0 |-> [s \in 1..c.N |-> 0] ]             \* first byte of the buffer, also when len = 0

R(x, o) == [x |-> x, o |-> o]

OutTx(f) == [k |-> "tx", b |-> f]
Rep(f, kd) == [k |-> IF kd = 1 THEN "to" ELSE "ce", id |-> f[1], fc |-> f[2], a |-> U16(f, 3), q |-> U16(f, 5), kind |-> kd]

SMSend(x) == R([x EXCEPT !.ftx = TRUE, !.st = "TX", !.rxs = x.cur], <<OutTx(x.req)>>)
SMEnd(c, x) == [x EXCEPT !.rep = IF c.mut = "keeprep" THEN @ ELSE 0, !.free = Append(@, x.cur), !.cur = 0, !.st = "IDLE"]

ReqOf(f) ==      \* the request a frame on the line encodes
  [fc |-> f[2], a |-> U16(f, 3), q |-> U16(f, 5), id |-> f[1], v |-> <<>>]
FitsF(f, g) ==   \* modbus_master_check_slave_resp
  \/ Len(g) = 5 /\ g[2] = f[2] + 128
  \/ /\ g[2] = f[2] /\ f[2] \in ReadFc
     /\ LET n == IF f[2] \in {1, 2} THEN CeilDiv(U16(f, 5), 8) ELSE 2 * U16(f, 5)
        IN g[3] = n /\ Len(g) = 5 + n
  \/ g[2] = f[2] /\ f[2] \notin ReadFc /\ Len(g) = 8 /\ SubSeq(f, 1, 6) = SubSeq(g, 1, 6)
OutAnswer(f, g) ==
  LET r == ReqOf(f)
      o == Outcome(r, g)
  IN  IF o.k = "exc" THEN [k |-> "exc", t |-> o.t, id |-> o.id, fc |-> o.fc, code |-> o.code, a |-> o.a, q |-> U16(f, 5)]
      ELSE o

SMRetry(c, x, kd) ==
  LET n == x.rep + 1
  IN  IF (IF c.mut = "rep+1" THEN x.rep <= c.R ELSE n <= c.R)
      THEN R([x EXCEPT !.rep = n, !.st = "REP", !.rb[x.cur] = <<>>,
                       !.fcrc = IF kd = 0 THEN FALSE ELSE @, !.fe = IF kd = 2 THEN FALSE ELSE @], <<>>)
      ELSE R(SMEnd(c, [x EXCEPT !.rep = n]), <<Rep(x.req, kd)>>)

SMPoll(c, x) ==
  IF x.on = "none" THEN R(x, <<>>)
  ELSE
  CASE x.st = "IDLE" ->
         IF x.txq = <<>> THEN R(x, <<>>)
         ELSE SMSend([x EXCEPT !.cur = Head(x.txq).s, !.req = Head(x.txq).f, !.txq = Tail(@)])
    [] x.st = "REP" -> SMSend(x)
    [] x.st = "TX" -> R(IF x.ftx THEN x ELSE [x EXCEPT !.timer = c.T, !.st = "WAIT"], <<>>)
    [] x.st = "WAIT" ->
         IF x.f15
         THEN LET g == x.rb[x.cur]
                  x1 == [x EXCEPT !.f15 = FALSE, !.f35 = IF c.mut = "clr35" THEN FALSE ELSE @,
                                  !.fe = @ \/ (x.l15 \notin {0, Len(g)} /\ c.mut # "join")]
              IN  IF x.d0[x.cur] # x.req[1] /\ c.mut # "noid"
                  THEN R([x1 EXCEPT !.rb[x.cur] = <<>>, !.fe = IF c.mut = "keepfe" THEN @ ELSE FALSE], <<>>)
                  ELSE IF Crc(g) # 0 /\ c.mut # "nocrc"
                  THEN R([x1 EXCEPT !.timer = 0, !.fcrc = TRUE, !.st = "RCV"], <<>>)
                  ELSE R([x1 EXCEPT !.timer = 0, !.st = "RCV"], <<>>)
         ELSE IF (IF c.mut = "eq1" THEN x.timer = 1 ELSE x.timer <= 1) THEN R(SMEnd(c, x), <<Rep(x.req, 1)>>)
         ELSE R(x, <<>>)
    [] x.st = "RCV" ->
         IF ~x.f35 THEN R(x, <<>>)
         ELSE IF x.fe THEN SMRetry(c, x, 2)
         ELSE IF x.fcrc THEN SMRetry(c, x, 0)
         ELSE IF c.mut = "nofit" \/ FitsF(x.req, x.rb[x.cur])
              THEN R(SMEnd(c, x), <<OutAnswer(x.req, x.rb[x.cur])>>)
              ELSE SMRetry(c, x, 2)

SMReq(c, x, ev) ==
  LET r == [fc |-> ev.fc, a |-> ev.a, q |-> ev.q, id |-> ev.id, v |-> ev.v]
  IN  IF x.free = <<>> THEN [x |-> x, o |-> <<>>, r |-> 1]
      ELSE IF ~ReqLegal(r) \/ x.on = "other"
           THEN [x |-> [x EXCEPT !.free = IF c.mut = "leak" THEN Tail(@) ELSE Append(Tail(@), Head(@))], o |-> <<>>, r |-> 2]
      ELSE [x |-> [x EXCEPT !.free = Tail(@), !.txq = Append(@, [s |-> Head(x.free), f |-> Encode(r)])],
            o |-> <<>>, r |-> 0]

SMTxDone(c, x) ==
  IF c.mut = "norst" THEN [x EXCEPT !.ftx = FALSE] ELSE
  IF c.mut = "anyrst" /\ ~x.ftx THEN [x EXCEPT !.f15 = FALSE, !.f35 = FALSE] ELSE
  [x EXCEPT !.ftx = FALSE,
            !.rb = IF x.ftx /\ x.cur # 0 THEN [@ EXCEPT ![x.cur] = <<>>] ELSE @,
            !.f15 = IF x.ftx /\ x.cur # 0 THEN FALSE ELSE @,
            !.l15 = IF x.ftx /\ x.cur # 0 THEN 0 ELSE @,
            !.f35 = IF x.ftx /\ x.cur # 0 THEN FALSE ELSE @,
            !.fe = IF x.ftx /\ x.cur # 0 THEN FALSE ELSE @,
            !.fcrc = IF x.ftx /\ x.cur # 0 THEN FALSE ELSE @]

SMRx(x, b) ==
  IF x.rxs = 0 \/ Len(b) = 0 THEN x
  ELSE LET s == x.rxs
           room == 255 - Len(x.rb[s])
           n == IF Len(b) < room THEN Len(b) ELSE room
       IN [x EXCEPT !.rb[s] = @ \o SubSeq(b, 1, n),
                    !.d0[s] = IF Len(x.rb[s]) = 0 /\ n > 0 THEN b[1] ELSE @]

SMInit(c, x, ev) ==
  [SMInit0(c) EXCEPT !.on = IF ev.mode = 0 THEN "rtu" ELSE "other",
                     !.free = [i \in 1..c.N |-> i], !.rxs = x.rxs, !.rb = x.rb, !.d0 = x.d0]

(* a request the application makes from within a callback: the slot of the    *)
(* concluding request is given back only after the callback (x: the state     *)
(* after the poll)                                                            *)
SMNest(c, x, ev) ==
  LET n == Len(x.free)
      z == SMReq(c, [x EXCEPT !.free = SubSeq(@, 1, n - 1)], ev)
  IN  IF n = 0 THEN SMReq(c, x, ev)          \* (the model has concluded nothing here)
      ELSE [z EXCEPT !.x.free = Append(@, x.free[n])]

(* one event; the result of a request is in r, of other events r = 0          *)
SMStep(c, x, ev) ==
  CASE ev.e = "poll" -> LET z == SMPoll(c, x) IN [x |-> z.x, o |-> z.o, r |-> 0]
    [] ev.e = "req" -> SMReq(c, x, ev)
    [] ev.e = "tick" -> [x |-> [x EXCEPT !.timer = IF @ > ev.n THEN @ - ev.n ELSE 0], o |-> <<>>, r |-> 0]
    [] ev.e = "rx" -> [x |-> SMRx(x, ev.b), o |-> <<>>, r |-> 0]
    [] ev.e = "t15" -> [x |-> IF x.cur = 0 \/ (c.mut # "t15empty" /\ x.rb[x.cur] = <<>>) THEN x ELSE
                              [x EXCEPT !.f35 = IF c.mut = "t15keep" THEN @ ELSE FALSE, !.f15 = TRUE,
                                            !.fe = @ \/ (x.f15 /\ x.l15 # Len(x.rb[x.cur]) /\ c.mut # "join"),
                                            !.l15 = Len(x.rb[x.cur])], o |-> <<>>, r |-> 0]
    [] ev.e = "t35" -> [x |-> [x EXCEPT !.f35 = TRUE], o |-> <<>>, r |-> 0]
    [] ev.e = "ferr" -> [x |-> [x EXCEPT !.fe = TRUE], o |-> <<>>, r |-> 0]
    [] ev.e = "txdone" -> [x |-> SMTxDone(c, x), o |-> <<>>, r |-> 0]
    [] ev.e = "init" -> [x |-> SMInit(c, x, ev), o |-> <<>>, r |-> 0]
    [] OTHER -> [x |-> x, o |-> <<>>, r |-> 0]

(* what happens within an event, z being what the model does in it: requests  *)
(* from callbacks (their results in nr), line events during them, and a       *)
(* driver that reports the end of the transmission from within send()         *)
SMWithin(c, z, os) ==
  FoldLeft(LAMBDA a, o : CASE o.k = "td" /\ o.s = "m" -> [a EXCEPT !.x = SMTxDone(c, @)]
                           [] o.k = "ln" -> [a EXCEPT !.x = SMStep(c, @, o).x]
                           [] o.k = "req" -> LET n == SMNest(c, a.x, o)
                                             IN [a EXCEPT !.x = n.x, !.nr = Append(@, n.r)]
                           [] OTHER -> a,
           z @@ [nr |-> <<>>], os)
=============================================================================
