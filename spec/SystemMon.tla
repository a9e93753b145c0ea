-------------------------------- MODULE SystemMon --------------------------------
(* What holds of a master and a slave of this library that are used together: *)
(* the statements that relate what one side tells its application to what the *)
(* other side's application data were (X01, X02), that neither does anything  *)
(* while the other is called (X03), and that no call crashes or hangs (X05).  *)
(* sm and ss are the states of MasterMon and SlaveMon before the event.       *)
EXTENDS ModbusPDU

YInit0 ==
  [ on   |-> FALSE,          \* master and slave are connected to each other
    clean|-> FALSE,          \* by a line that loses and damages nothing, and the slave answers in time
    acc  |-> <<>>,           \* accepted requests that have not concluded
    asked|-> {},             \* <<table, address, value>> of all writes ever requested of the slave
    serv |-> <<>>,           \* what the slave served for the request in progress: [f, exc, vals]
    tabs |-> <<>>,
    bad  |-> {} ]

YViol(y, ps, why) == [y EXCEPT !.bad = @ \cup {<<p, why>> : p \in ps}]
YCheck(y, ok, ps, why) == IF ok THEN y ELSE YViol(y, ps, why)

MasterOut(o) == o.k \in {"rd", "wr", "exc", "to", "ce", "req"} \/ ("s" \in DOMAIN o /\ o.s = "m")
SlaveOut(o) == o.k = "chg" \/ ("s" \in DOMAIN o /\ o.s = "s")

AskedBy(r) == LET f == Encode(r) IN {<<Table(r.fc), a, Writes(f)[a]>> : a \in DOMAIN Writes(f)}

(* values of the requested items in the application's data tabs               *)
HeldAs(tabs, r, v) ==
  LET t == tabs[Table(r.fc)] IN r.a + r.q <= Len(t) /\ v = Items(t, r.a, r.q)

YOut(y, cur, o) ==
  LET S == {i \in 1..Len(y.serv) : y.serv[i].f = cur.f}
  IN CASE o.k = "rd" -> YCheck([y EXCEPT !.serv = <<>>],
                               \E i \in S : ~y.serv[i].exc /\ HeldAs(y.serv[i].tabs, cur, o.v) /\ o.a = cur.a /\ o.t = Table(cur.fc),
                               {"X01"}, "the master delivers something else than the slave held")
       [] o.k = "exc" -> YCheck([y EXCEPT !.serv = <<>>],
                                \E i \in S : y.serv[i].exc /\ o.code \in ExcCodes(y.serv[i].tabs, cur.f),
                                {"X01"}, "the master reports an exception the slave's data do not call for")
       [] o.k = "wr" -> YCheck([y EXCEPT !.serv = <<>>],
                               \E i \in S : /\ ~y.serv[i].exc
                                            /\ LET w == Writes(cur.f) t == y.serv[i].after[Table(cur.fc)]
                                               IN \A a \in DOMAIN w : a + 1 <= Len(t) /\ t[a + 1] = w[a],
                               {"X02"}, "a write is confirmed that has not happened")
       [] o.k \in {"to", "ce"} -> YCheck([y EXCEPT !.serv = <<>>], ~y.clean \/ S = {},
                                         {IF cur.fc \in ReadFc \/ \E i \in S : y.serv[i].exc THEN "X01" ELSE "X02"},
                                         "what the slave answered does not reach the application")
       [] OTHER -> y

ChgOf(os) == UNION {{<<c[1], c[2], c[3]>> : c \in ToSet(os[i].c)} : i \in {j \in 1..Len(os) : os[j].k = "chg"}}

(* before: the master's and slave's state before the event; after: the slave's after it *)
YStep(y, sm, ss, ssAfter, ev) ==
  LET os == ev.o
      y1 == IF ev.e = "crash" THEN YViol(y, {"X05"}, "a call does not return properly") ELSE y
      y2 == IF ev.s = "m" THEN YCheck(y1, ~\E i \in 1..Len(os) : SlaveOut(os[i]), {"X03"}, "the slave does something when the master is called")
            ELSE IF ev.s = "s" THEN YCheck(y1, ~\E i \in 1..Len(os) : MasterOut(os[i]), {"X03"}, "the master does something when the slave is called")
            ELSE y1
  IN  IF ev.e = "connect" THEN [y2 EXCEPT !.on = TRUE, !.clean = ev.clean]
      ELSE IF ~y.on THEN y2
      ELSE IF ev.s = "m"
      THEN LET y3 == IF ev.e = "req" /\ ev.r = 0 /\ ev.fc \in SingleFc \cup MultiFc /\ ev.id = ss.id
                     THEN LET r == [fc |-> ev.fc, a |-> ev.a, q |-> ev.q, id |-> ev.id, v |-> ev.v]
                          IN IF ReqLegal(r) THEN [y2 EXCEPT !.asked = @ \cup AskedBy(r)] ELSE y2
                     ELSE y2
               y4 == IF ev.e = "init" THEN [y3 EXCEPT !.serv = <<>>] ELSE y3
           IN FoldLeft(LAMBDA s, o : YOut(s, sm.cur, o), y4, os)
      ELSE IF ev.s = "s"
      THEN LET w == ChgOf(os)
               y3 == YCheck(y2, w \subseteq y2.asked, {"X02"}, "slave data change to something the master did not ask for")
               T == {i \in 1..Len(os) : os[i].k = "tx"}
               f == IF ss.due # <<>> THEN ss.due ELSE IF ss.cands # <<>> THEN ss.cands[Len(ss.cands)] ELSE <<>>
           IN IF T = {} THEN y3
              ELSE LET b == os[CHOOSE i \in T : TRUE].b
                   IN [y3 EXCEPT !.serv = IF Len(@) >= 8 THEN @ ELSE
                         Append(@, [f |-> f, exc |-> Len(b) >= 2 /\ b[2] >= 128, tabs |-> ss.tabs, after |-> ssAfter.tabs])]
      ELSE y2
===============================================================================
