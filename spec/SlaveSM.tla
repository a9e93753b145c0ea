-------------------------------- MODULE SlaveSM --------------------------------
(* The slave as it is implemented: modbus_slave.c (state machine, flags,      *)
(* request buffer), modbus_RTU.c and modbus_slave_PDU.c (serving a request    *)
(* from the application's data tables), one operator per application call or  *)
(* driver callback.  c.mut = "none" is the code as it is; any other value     *)
(* puts a defect found in the original code, or a typical mistake, back in.   *)
EXTENDS ModbusPDU

SSInit0 ==
  [ on |-> "none", id |-> 0, st |-> "IDLE",
    f15 |-> FALSE, f35 |-> FALSE, fe |-> FALSE, ftx |-> FALSE,
    l15 |-> 0,                                \* bytes received when the last 1.5 silence was reported
    buf |-> <<>> ]

SR(x, tabs, o) == [x |-> x, tabs |-> tabs, o |-> o]

Chg(t, w) == [k |-> "chg", c |-> SetToSeq({<<t, a, w[a]>> : a \in DOMAIN w})]
Apply(tabs, t, w) == [tabs EXCEPT ![t] = [i \in DOMAIN @ |-> IF (i - 1) \in DOMAIN w THEN w[i - 1] ELSE @[i]]]

(* items of a multiple write before the first one without application data    *)
PartialWrites(tabs, f) ==
  LET w == Writes(f)
      t == tabs[Table(f[2])]
      ok == {a \in DOMAIN w : \A b \in DOMAIN w : b <= a => t[b + 1] >= 0}
  IN  [a \in {b \in ok : t[b + 1] # w[b]} |-> w[a]]

Serve(mut, tabs, f) ==       \* [resp, tabs, w]
  LET fc == f[2]
      cs == ExcCodes(tabs, f)
      code == IF 3 \in cs THEN 3 ELSE IF cs = {} THEN 0 ELSE CHOOSE e \in cs : TRUE
      part == IF code = 4 /\ fc \in MultiFc THEN PartialWrites(tabs, f) ELSE <<>>
  IN  IF mut = "noexc2" /\ code = 2 /\ fc \in ReadFc
      THEN [resp |-> WithCrc(<<f[1], fc, 0>>), w |-> <<>>]
      ELSE IF code # 0 THEN [resp |-> ExcResp(f, IF mut = "wrongexc" THEN 4 ELSE code), w |-> part]
      ELSE [resp |-> PositiveResp(tabs, f), w |-> IF fc \in ReadFc THEN <<>> ELSE Changes(tabs, f)]

Clean(x) == [x EXCEPT !.buf = <<>>, !.l15 = 0, !.f15 = FALSE, !.f35 = FALSE, !.fe = FALSE, !.st = "IDLE"]

SSPoll(c, x, tabs) ==
  IF x.on # "rtu" THEN SR(x, tabs, <<>>)
  ELSE
  CASE x.st = "IDLE" ->
         IF x.f15
         THEN LET late == x.l15 \notin {0, Len(x.buf)} /\ c.mut # "join"
                  okid == Len(x.buf) > 0 /\ (x.buf[1] = x.id \/ c.mut = "anyid")
                  good == okid /\ (Crc(x.buf) = 0 \/ c.mut = "nocrc") /\ ~(Short(x.buf) /\ c.mut # "short")
              IN SR([x EXCEPT !.f15 = FALSE, !.fe = @ \/ late \/ ~good, !.st = "MSG"], tabs, <<>>)
         ELSE IF x.f35 /\ x.buf = <<>>
         THEN SR([x EXCEPT !.fe = IF c.mut = "keepfe" THEN @ ELSE FALSE, !.f35 = IF c.mut = "keep35" THEN @ ELSE FALSE], tabs, <<>>)
         ELSE SR(x, tabs, <<>>)
    [] x.st = "MSG" ->
         IF ~x.f35 /\ c.mut # "no35" THEN SR(x, tabs, <<>>)
         ELSE IF x.fe THEN SR(Clean(x), tabs, <<>>)
         ELSE LET s == Serve(c.mut, tabs, x.buf)
                  t == Table(x.buf[2])
              IN SR([x EXCEPT !.ftx = TRUE, !.st = "TX", !.f35 = FALSE],
                    IF DOMAIN s.w = {} THEN tabs ELSE Apply(tabs, t, s.w),
                    <<[k |-> "tx", b |-> s.resp]>> \o (IF DOMAIN s.w = {} THEN <<>> ELSE <<Chg(t, s.w)>>))
    [] x.st = "TX" -> IF x.ftx THEN SR(x, tabs, <<>>)
                      ELSE IF c.mut = "dirty" THEN SR([x EXCEPT !.buf = <<>>, !.st = "IDLE"], tabs, <<>>)
                      ELSE SR(Clean(x), tabs, <<>>)

SSRx(x, b) ==
  IF x.on = "none" \/ Len(b) = 0 THEN x
  ELSE LET room == 255 - Len(x.buf)
       IN [x EXCEPT !.buf = @ \o SubSeq(b, 1, IF Len(b) < room THEN Len(b) ELSE room)]

SSInit(c, x, ev) ==
  [SSInit0 EXCEPT !.on = IF ev.mode = 0 THEN "rtu" ELSE "other", !.id = ev.id,
                  !.buf = IF c.mut = "initkeep" THEN x.buf ELSE <<>>]

SSStep(c, x, tabs, ev) ==
  CASE ev.e = "poll" -> SSPoll(c, x, tabs)
    [] ev.e = "rx" -> SR(SSRx(x, ev.b), tabs, <<>>)
    [] ev.e = "t15" -> SR(IF x.buf = <<>> /\ c.mut # "t15empty" THEN x
                          ELSE [x EXCEPT !.fe = @ \/ (x.f15 /\ x.l15 # Len(x.buf) /\ c.mut # "join"),
                                         !.f35 = IF c.mut = "t15keep" THEN @ ELSE FALSE,
                                         !.f15 = TRUE, !.l15 = Len(x.buf)], tabs, <<>>)
    [] ev.e = "t35" -> SR([x EXCEPT !.f35 = TRUE], tabs, <<>>)
    [] ev.e = "ferr" -> SR([x EXCEPT !.fe = TRUE], tabs, <<>>)
    [] ev.e = "txdone" -> SR([x EXCEPT !.ftx = FALSE], tabs, <<>>)
    [] ev.e = "init" -> SR(SSInit(c, x, ev), tabs, <<>>)
    [] ev.e = "app" -> SR(x, [tabs EXCEPT ![ev.t] = [@ EXCEPT ![ev.a + 1] = ev.v]], <<>>)
    [] OTHER -> SR(x, tabs, <<>>)
=============================================================================
