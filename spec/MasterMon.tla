------------------------------ MODULE MasterMon ------------------------------
(* The contract of the master as a transition system over observable events.  *)
(* A state records what the application asked for and what really happened on *)
(* the line; MStep consumes one event - a call of the application or of the   *)
(* driver together with everything the master did during it (ev.o) - and      *)
(* records in "bad" every property the master's doing violates.               *)
(* The contract says nothing about how the master works internally and gives  *)
(* it K polls to react to something, so any implementation of the documented  *)
(* behaviour satisfies it.  Where the history is one in which the             *)
(* documentation leaves the reaction open (bytes of the next frame before the *)
(* application polled, events out of order ...) only the "never" parts apply. *)
EXTENDS ModbusPDU

CONSTANT K                   \* polls within which a due reaction must happen
Min2(a, b) == IF a < b THEN a ELSE b
NoReq == [fc |-> 0, a |-> 0, q |-> 0, id |-> 0, v |-> <<>>, f |-> <<>>]
NoDue == "none"

(* ------------------------------------------------------------------------ *)
MInit0 ==
  [ mode |-> "none",         \* not initialised, "rtu" or "other"
    q    |-> <<>>,           \* accepted requests not yet on the line
    cur  |-> NoReq,          \* the request in progress
    ph   |-> 0,              \* 0 none, 1 being transmitted, 2 waiting for the answer
    att  |-> 0,              \* transmissions of cur so far
    tk   |-> 0,              \* ticks since its transmission was completed
    tkp  |-> 0,              \* ticks since the first poll after that
    pol  |-> FALSE,          \* was there such a poll
    act  |-> FALSE,          \* a reception has begun that no silence has ended yet
    seg  |-> <<>>,           \* its bytes
    segF |-> FALSE,          \* a framing error was reported in it
    t15s |-> {},             \* lengths it had when 1.5 characters of silence were reported
    cuts |-> {0},            \* positions where the master may have discarded what came before
    np   |-> K,              \* polls since the last thing that happened on the line
    nseg |-> 0,              \* receptions completed since the transmission
    cands|-> <<>>,           \* intact frames with the slave's address completed since then
    dmg  |-> FALSE,          \* something arrived that may count as a damaged answer
    kinds|-> {},             \* kinds of damage it may be taken for
    amb  |-> FALSE,          \* the master's reaction is left open
    frgn |-> FALSE,          \* a frame of another slave was received
    crcb |-> FALSE,          \* a frame with the slave's address and a wrong CRC was received
    due  |-> NoDue,          \* "deliver" or "repeat" must happen
    dueM |-> FALSE,          \* ... because of an answer that does not fit the request
    ip   |-> 0,              \* polls with nothing in progress though something is queued
    tp   |-> 0,              \* polls since the response time ran out with nothing received
    ref  |-> {},             \* requests that were refused
    reini|-> FALSE,
    lk   |-> "",             \* kind of the outcome that was made in this event
    bad  |-> {} ]

Viol(m, ps, why) == [m EXCEPT !.bad = @ \cup {<<p, why>> : p \in ps}]
Check(m, ok, ps, why) == IF ok THEN m ELSE Viol(m, ps, why)

ExpectKind(r) == CASE r.fc \in ReadFc -> "M11" [] OTHER -> "M12"
DueProps(m) ==   \* what is violated when a due answer is not delivered
    LET c == m.cands[Len(m.cands)]
    IN  {IF IsException(m.cur, c) THEN "M13" ELSE ExpectKind(m.cur)}
        \cup (IF m.att = 1 THEN {"M15"} ELSE {})
        \cup (IF m.frgn THEN {"M10"} ELSE {})

Conclude(m) == [m EXCEPT !.cur = NoReq, !.ph = 0, !.att = 0, !.due = NoDue, !.dueM = FALSE,
                         !.ip = 0, !.tp = 0, !.cands = <<>>, !.dmg = FALSE, !.kinds = {},
                         !.amb = FALSE, !.frgn = FALSE, !.crcb = FALSE, !.tk = 0, !.tkp = 0,
                         !.pol = FALSE, !.nseg = 0]

(* ------------------------- what the line does --------------------------- *)
Open3(m) == [m EXCEPT !.dmg = TRUE, !.amb = TRUE, !.kinds = {0, 2}]

(* something happens on the line: a reaction that is still due is open now    *)
Touch(m) == LET m1 == IF m.due # NoDue THEN [Open3(m) EXCEPT !.due = NoDue, !.dueM = FALSE] ELSE m
            IN  IF m1.act THEN m1
                ELSE LET m2 == [m1 EXCEPT !.act = TRUE, !.seg = <<>>, !.segF = FALSE,
                                          !.t15s = {}, !.cuts = {0}]
                     IN IF m.np < K THEN Open3(m2) ELSE m2

Foreign(m) == Len(m.seg) > 0 /\ m.seg[1] # m.cur.id
OnRx(m, b) == [Touch(m) EXCEPT !.seg = @ \o b]
(* an error inside a frame that is already known to be for somebody else is   *)
(* ignored with that frame                                                    *)
OnFerr(m) == LET m1 == Touch(m)
             IN IF m1.ph = 2 /\ Foreign(m1) /\ m1.t15s = {} /\ m1.cuts = {0} /\ ~m1.amb
                THEN [m1 EXCEPT !.segF = TRUE]
                ELSE [m1 EXCEPT !.segF = TRUE, !.dmg = TRUE,
                                !.kinds = @ \cup (IF Foreign(m1) \/ m1.seg = <<>> THEN {0, 2} ELSE {2})]
OnT15(m) == LET m1 == Touch(m)                 \* (a silence after nothing means nothing)
            IN  IF m1.seg = <<>> THEN m1 ELSE [m1 EXCEPT !.t15s = @ \cup {Len(m1.seg)}]

Intact(id, f) == Len(f) >= 4 /\ f[1] = id /\ CrcOk(f)
(* the frames in a reception that may have been taken for intact ones         *)
SegFrames(m) == IF m.segF THEN {}
                ELSE {g \in {SubSeq(m.seg, c + 1, Min2(p, c + 255)) : c \in m.cuts, p \in m.t15s \cup {Len(m.seg)}} :
                        Intact(m.cur.id, g)}           \* (drivers keep 255 bytes)

OnT35(m, T) ==
  IF ~m.act THEN m
  ELSE IF m.seg # <<>> /\ Len(m.seg) \notin m.t15s      \* no 1.5 characters before: not the end of a
       THEN [Open3(m) EXCEPT !.cands = @ \o SetToSeq(SegFrames(m)), !.np = 0]     \* reception
  ELSE IF m.ph # 2 THEN [m EXCEPT !.act = FALSE, !.seg = <<>>, !.segF = FALSE, !.t15s = {}, !.cuts = {0}, !.np = 0]
  ELSE
  LET f     == m.seg
      gap   == \E p \in m.t15s : p < Len(f)
      own   == Len(f) > 0 /\ f[1] = m.cur.id
      whole == m.cuts \subseteq {0, Len(f)}
      crc   == own /\ Len(f) >= 4 /\ CrcOk(f)
      fit   == crc /\ Fits(m.cur, f)
      intime== m.tk < T - 1
      plain == whole /\ ~m.amb /\ intime       \* nothing unusual about it
      m1 == [m EXCEPT !.act = FALSE, !.np = 0, !.nseg = Min2(@ + 1, 2), !.cands = @ \o SetToSeq(SegFrames(m)),
                      !.crcb = @ \/ (own /\ ~crc), !.frgn = @ \/ (Len(f) > 0 /\ ~own),
                      !.seg = <<>>, !.segF = FALSE, !.t15s = {}, !.cuts = {0}]
  IN  IF Len(f) = 0 THEN (IF m.segF THEN Open3(m1) ELSE m1)
      ELSE IF (gap /\ (~m.segF \/ ~own)) \/ ~whole \/ (own /\ Len(f) > 255) THEN Open3(m1)
      ELSE IF ~own THEN m1                              \* (segF: dmg was noted then)
      ELSE IF fit /\ ~m.segF
           THEN IF plain /\ ~m.dmg THEN [m1 EXCEPT !.due = "deliver"] ELSE m1
      ELSE LET m2 == [m1 EXCEPT !.dmg = TRUE, !.kinds = @ \cup (IF m.segF \/ crc THEN {2} ELSE IF CrcOk(f) THEN {0, 2} ELSE {0})]
           IN  IF plain /\ (~m.dmg \/ (m.segF /\ m.nseg = 0 /\ m.kinds = {2}))
               THEN [m2 EXCEPT !.due = "repeat", !.dueM = crc] ELSE m2

OnTxDone(m) ==
  IF m.ph # 1 THEN m
  ELSE LET m1 == [m EXCEPT !.ph = 2, !.tk = 0, !.tkp = 0, !.pol = FALSE, !.np = K, !.nseg = 0,
                           !.cands = <<>>, !.dmg = FALSE, !.kinds = {}, !.amb = FALSE, !.frgn = FALSE,
                           !.crcb = FALSE, !.due = NoDue, !.dueM = FALSE, !.tp = 0]
       \* (an error or a silence without data during the transmission is over)
       IN IF m.act /\ m.seg = <<>> THEN [m1 EXCEPT !.act = FALSE, !.segF = FALSE]
          ELSE IF m.act THEN [Open3(m1) EXCEPT !.cuts = {Len(m.seg)}, !.segF = FALSE] ELSE m1

OnTick(m, n, T) ==
  IF m.ph # 2 THEN m
  ELSE [m EXCEPT !.tk = Min2(@ + n, T + 1), !.tkp = IF m.pol THEN Min2(@ + n, T + 1) ELSE 0]

(* -------------------------- what the master does ------------------------- *)
OnSend(m, f, R) ==
  IF m.mode # "rtu" THEN Viol(m, {"M17"}, "sends though not initialised for RTU")
  ELSE IF m.ph = 0
  THEN IF m.q = <<>>
       THEN Viol(m, (IF \E r \in m.ref : Len(f) >= 4 /\ f[1] = r.id /\ f[2] = r.fc /\ U16(f, 3) = r.a
                     THEN {"M02"} ELSE {"M04"}) \cup (IF m.reini THEN {"M17"} ELSE {}),
                 "sends a frame nobody asked for")
       ELSE LET r == Head(m.q)
                m1 == [m EXCEPT !.q = Tail(@), !.cur = r, !.ph = 1, !.att = 1, !.ip = 0]
            IN IF f = r.f THEN m1
               ELSE Viol(m1, (IF \E i \in 2..Len(m.q) : m.q[i].f = f THEN {"M04"} ELSE {"M01", "M04"})
                             \cup (IF \E x \in m.ref : Len(f) >= 4 /\ f[1] = x.id /\ f[2] = x.fc /\ U16(f, 3) = x.a
                                   THEN {"M02"} ELSE {}),
                         "first transmission is not the encoding of the next request")
  ELSE IF m.ph = 1 THEN Viol(m, {"M04"}, "sends while a transmission is running")
  ELSE IF f = m.cur.f
  THEN LET m1 == [m EXCEPT !.ph = 1, !.att = Min2(@ + 1, R + 2), !.due = NoDue, !.dueM = FALSE]
           m2 == Check(m1, m.dmg, {"M08", "M04"} \cup (IF m.frgn THEN {"M10"} ELSE {})
                                   \cup (IF m.due = "deliver" THEN DueProps(m) ELSE {})
                                   \cup (IF m.act /\ m.att = 1 /\ ~m.segF /\ (\E g \in SegFrames(m) : Fits(m.cur, g))
                                         THEN {"M15"} ELSE {}),         \* (an answer that is all right so far)
                       "repeats a request though no damaged answer was received")
       IN Check(m2, m.att <= R, {"M08"}, "more repetitions than configured")
  ELSE IF \E i \in 1..Len(m.q) : m.q[i].f = f
  THEN LET i == CHOOSE x \in 1..Len(m.q) : m.q[x].f = f
       IN Viol([Conclude(m) EXCEPT !.q = SubSeq(m.q, 1, i - 1) \o SubSeq(m.q, i + 1, Len(m.q)),
                                   !.cur = m.q[i], !.ph = 1, !.att = 1], {"M04", "M05", "M06"}
                    \cup (IF m.due = "deliver" THEN DueProps(m) ELSE {}),
               "next request sent before the previous one has concluded")
  ELSE Viol([m EXCEPT !.ph = 1, !.att = Min2(@ + 1, R + 2), !.due = NoDue], {"M08", "M04", "M01"},
            "repetition differs from the request")

SameOutcome(r, x, o) ==      \* observed o is the expected outcome x
  CASE o.k # x.k -> FALSE
    [] o.k = "rd" -> o.t = x.t /\ o.id = x.id /\ o.a = x.a /\ o.v = x.v
    [] o.k = "wr" -> o.t = x.t /\ o.id = x.id /\ o.a = x.a /\ o.q = x.q
    [] o.k = "exc" -> /\ o.t = x.t /\ o.id = x.id /\ o.fc = x.fc /\ o.code = x.code /\ o.a = x.a
                      /\ r.fc \in SingleFc \/ o.q = r.q

OnAnswer(m, o) ==
  IF m.ph # 2 THEN Viol(m, {"M05"} \cup (IF m.ph = 1 THEN {"M09"} ELSE {})
                            \cup (IF m.ph = 0 /\ m.lk = o.k     \* the same outcome once more
                                  THEN {CASE o.k = "rd" -> "M11" [] o.k = "wr" -> "M12" [] OTHER -> "M13"} ELSE {})
                            \cup (IF m.ph = 0 /\ m.lk = "exc" /\ o.k # "exc" THEN {"M13"} ELSE {})
                            \cup (IF m.reini /\ m.ph = 0 THEN {"M17"} ELSE {}), "outcome without a request waiting for it")
  ELSE
  LET fits == {i \in 1..Len(m.cands) : Fits(m.cur, m.cands[i])}
  IN  IF \E i \in fits : SameOutcome(m.cur, Outcome(m.cur, m.cands[i]), o) THEN [Conclude(m) EXCEPT !.lk = o.k]
      ELSE LET ps == IF m.cands = <<>>
                     THEN {"M09"} \cup (IF m.crcb THEN {"X04"} ELSE {})
                                  \cup (IF m.nseg = 0 /\ ~m.act THEN {"M05"} ELSE {})
                     ELSE IF fits = {} THEN {"M16"}
                     ELSE {Outcome(m.cur, m.cands[i]).k : i \in fits}
               qs == (ps \cap {"M05", "M09", "M16", "X04"})
                     \cup (IF "rd" \in ps THEN {"M11"} ELSE {})
                     \cup (IF "wr" \in ps THEN {"M12"} ELSE {})
                     \cup (IF "exc" \in ps THEN {"M13"} ELSE {})
           IN Viol([Conclude(m) EXCEPT !.lk = o.k], qs, "outcome is not what an intact answer says")

ReportOk(r, o) == o.id = r.id /\ o.fc = r.fc /\ o.a = r.a /\ (r.fc \in SingleFc \/ o.q = r.q)

OnTimeout(m, o, T) ==
  IF m.ph # 2 THEN Viol(m, {"M05"} \cup (IF m.ph = 1 THEN {"M07"} ELSE {})
                            \cup (IF m.reini /\ m.ph = 0 THEN {"M17"} ELSE {}), "timeout report without a request waiting")
  ELSE LET m1 == Check(m, m.tk >= T - 1, {"M07"} \cup (IF m.frgn THEN {"M10"} ELSE {}), "timeout before the response time has passed")
           m2 == Check(m1, ReportOk(m.cur, o) /\ o.kind = 1, {"M14"}, "timeout report does not describe the request")
           m3 == Check(m2, m.due # "deliver", IF m.due = "deliver" THEN DueProps(m) ELSE {}, "timeout though a proper answer was received in time")
           m4 == Check(m3, m.due # "repeat", {"M08"} \cup (IF m.dueM THEN {"M16"} ELSE {}), "timeout though a damaged answer was received in time")
       IN  Conclude(m4)

OnCommErr(m, o, R) ==
  IF m.ph # 2 THEN Viol(m, {"M05"} \cup (IF m.reini /\ m.ph = 0 THEN {"M17"} ELSE {}), "error report without a request waiting")
  ELSE LET m1 == Check(m, m.dmg, {"M08"} \cup (IF m.frgn THEN {"M10"} ELSE {})
                                   \cup (IF m.due = "deliver" THEN DueProps(m) ELSE {}),
                       "communication error though no damaged answer was received")
           m2 == Check(m1, m.att > R, {"M08"}, "communication error before the last repetition")
           m3 == Check(m2, ReportOk(m.cur, o), {"M14"}, "error report does not describe the request")
           m4 == Check(m3, ~m.dmg \/ o.kind \in m.kinds, {"M08", "M14"} \cup (IF m.dueM THEN {"M16"} ELSE {}), "error report names the wrong kind of damage")
       IN  Conclude(m4)

Used(m) == Len(m.q) + (IF m.ph > 0 THEN 1 ELSE 0)
(* slack: the call was made inside a callback, where the concluding request   *)
(* may or may not still hold its message slot                                 *)
OnReq(m, ev, N, slack) ==
  LET r == [fc |-> ev.fc, a |-> ev.a, q |-> ev.q, id |-> ev.id, v |-> ev.v, f |-> <<>>]
      legal == ReqLegal(r)
      full == Used(m) >= N
      refd == [m EXCEPT !.ref = IF Cardinality(@) < 4 THEN @ \cup {[fc |-> ev.fc, a |-> ev.a, id |-> ev.id]} ELSE @]
      acc == [m EXCEPT !.q = Append(@, [r EXCEPT !.f = Encode(r)])]
  IN CASE m.mode = "none" -> m
       [] m.mode = "other" -> Check(m, ev.r = 2, {"M17"}, "request not refused as invalid in an unsupported mode")
       [] OTHER ->
     CASE ev.r = 0 -> IF ~legal THEN Viol(m, {"M02"}, "request outside the limits accepted")
                      ELSE Check(acc, ~full, {"M02", "M03"}, "request accepted though no message slot is free")
       [] ev.r = 1 -> Check(refd, full \/ (slack /\ Used(m) + 1 >= N),
                             IF legal THEN {"M02", "M03"} ELSE {"M02"}, "refused as queue full though a message slot is free")
       [] ev.r = 2 -> Check(refd, ~legal, {"M02"}, "request within the limits refused as invalid")
       [] OTHER -> Viol(refd, {"M02"}, "undocumented result of a request")

OnOut(c, m, o) ==
  CASE o.k = "tx" -> OnSend(m, o.b, c.R)
    [] o.k \in {"rd", "wr", "exc"} -> OnAnswer(m, o)
    [] o.k = "to" -> OnTimeout(m, o, c.T)
    [] o.k = "ce" -> OnCommErr(m, o, c.R)
    [] o.k = "td" -> OnTxDone(m)
    [] o.k = "req" -> OnReq(m, o, c.N, TRUE)
    [] o.k = "ln" -> (CASE o.e = "rx" -> OnRx(m, o.b)       \* while a callback runs
                        [] o.e = "t15" -> OnT15(m)
                        [] o.e = "t35" -> OnT35(m, c.T)
                        [] o.e = "ferr" -> OnFerr(m)
                        [] o.e = "txdone" -> OnTxDone(m)
                        [] o.e = "tick" -> OnTick(m, o.n, c.T))
    [] o.k = "wire" -> Viol(m, {"M01", "M04"}, "frame changed while it was being transmitted")
    [] OTHER -> m
Outs(c, m, os) == [FoldLeft(LAMBDA s, o : OnOut(c, s, o), m, os) EXCEPT !.lk = ""]
MOuts(ev) == SelectSeq(ev.o, LAMBDA o : o.k \notin {"chg"} /\ ("s" \notin DOMAIN o \/ o.s = "m"))

(* ------------------------------- one event ------------------------------- *)
OnPoll(c, m, os) ==
  LET cut == m.ph = 2 /\ m.act /\ (m.amb \/ (m.t15s # {} /\ Foreign(m)))   \* may discard what came so far,
      m0 == [m EXCEPT !.np = Min2(@ + 1, K), !.pol = (m.ph = 2),   \* and the error in it with it
                      !.cuts = IF cut THEN @ \cup {Len(m.seg)} ELSE @,
                      !.segF = @ /\ ~cut]
      m1 == Outs(c, m0, os)
      \* polls in a state in which something has to happen
      idle == m1.ph = 0 /\ m1.q # <<>>
      late == m1.ph = 2 /\ m1.tkp >= c.T /\ ~m1.act /\ ~m1.dmg /\ m1.due = NoDue /\ m1.cands = <<>>
      m2 == [m1 EXCEPT !.ip = IF idle THEN Min2(@ + 1, K + 1) ELSE 0,
                       !.tp = IF late THEN Min2(@ + 1, K + 1) ELSE 0]
      m3 == IF m2.due # NoDue /\ m2.np >= K
            THEN Viol([m2 EXCEPT !.due = NoDue, !.dueM = FALSE],
                      IF m2.due = "deliver" THEN DueProps(m2) ELSE {"M08"} \cup (IF m2.dueM THEN {"M16"} ELSE {}),
                      IF m2.due = "deliver" THEN "a proper answer is not delivered"
                      ELSE "a damaged answer leads neither to a repetition nor to a report")
            ELSE m2
      m4 == Check(m3, m3.ip <= K, {"M06"}, "a queued request is not started")
  IN  Check(m4, m4.tp <= K, {"M07"} \cup (IF m4.frgn THEN {"M10"} ELSE {}), "the response time has passed and no timeout is reported")

OnInit(c, m, ev, os) ==
  LET m1 == [MInit0 EXCEPT !.mode = IF ev.mode = 0 THEN "rtu" ELSE "other", !.reini = (m.mode # "none"),
                           !.act = m.act, !.seg = m.seg, !.segF = m.segF, !.t15s = m.t15s, !.bad = m.bad]
      ini == SelectSeq(os, LAMBDA o : o.k = "init")
      m2 == Check(m1, ev.mode # 0 \/ (Len(ini) >= 1 /\ \A i \in 1..Len(ini) : ini[i].baud = ev.baud /\ ini[i].par = ev.par),
                  {"M17"}, "the driver is not initialised with the given settings")
  IN  Outs(c, m2, SelectSeq(os, LAMBDA o : o.k # "init"))

MStep(c, m, ev) ==
  IF ev.s # "m" THEN (IF ev.e = "end"
                      THEN Check(m, m.mode # "rtu" \/ (m.ph = 0 /\ m.q = <<>>), {"M06"},
                                 "an accepted request never concludes") ELSE m)
  ELSE
  LET os == MOuts(ev)
  IN  CASE ev.e = "init" -> OnInit(c, m, ev, os)
        [] ev.e = "poll" -> OnPoll(c, m, os)
        [] ev.e = "req"  -> Outs(c, OnReq(m, ev, c.N, FALSE), os)
        [] ev.e = "tick" -> Outs(c, OnTick(m, ev.n, c.T), os)
        [] ev.e = "rx"   -> Outs(c, OnRx(m, ev.b), os)
        [] ev.e = "t15"  -> Outs(c, OnT15(m), os)
        [] ev.e = "t35"  -> Outs(c, OnT35(m, c.T), os)
        [] ev.e = "ferr" -> Outs(c, OnFerr(m), os)
        [] ev.e = "txdone" -> Outs(c, OnTxDone(m), os)
        [] OTHER -> m
=============================================================================
