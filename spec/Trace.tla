--------------------------------- MODULE Trace ---------------------------------
(* Trace validation: every line of the file TRACES is the record of one run   *)
(* of the real library; TLC walks through all of them with the contracts of   *)
(* master, slave and system as observers.  The property PROP holds on a run   *)
(* if no contract records a violation of it.  With CONF set, the run is also  *)
(* compared step by step with the implementation-level models.                *)
EXTENDS MasterMon, Json, IOUtils
SL == INSTANCE SlaveMon
SY == INSTANCE SystemMon
XM == INSTANCE MasterSM
XS == INSTANCE SlaveSM

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
Conf == IOEnv.CONF = "1"
Cf(t) == Conf /\ Traces[t].cfg.conf

VARIABLES tid, i, m, s, y, xm, xs, xt, drift

Cfg(t) == Traces[t].cfg
MC(t) == [N |-> Cfg(t).N, T |-> Cfg(t).T, R |-> Cfg(t).R, mut |-> "none"]
Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ m = MInit0
        /\ s = SL!SInit0(Cfg(tid).tabs)
        /\ y = SY!YInit0
        /\ xm = IF Cf(tid) THEN XM!SMInit0(MC(tid)) ELSE <<>>
        /\ xs = IF Cf(tid) THEN XS!SSInit0 ELSE <<>>
        /\ xt = IF Cf(tid) THEN Cfg(tid).tabs ELSE <<>>
        /\ drift = 0

Keep(o) == o.k \in {"tx", "rd", "wr", "exc", "to", "ce", "chg"}
Norm(o) == CASE o.k = "tx" -> [k |-> "tx", b |-> o.b]
             [] o.k = "chg" -> [k |-> "chg", c |-> ToSet(o.c)]
             [] OTHER -> o
NormAll(os) == [j \in 1..Len(SelectSeq(os, Keep)) |-> Norm(SelectSeq(os, Keep)[j])]

Next ==
  /\ i < Len(Traces[tid].ev)
  /\ i' = i + 1
  /\ tid' = tid
  /\ LET ev == Traces[tid].ev[i + 1]
         m1 == MStep(MC(tid), m, ev)
         s1 == SL!SStep(s, ev)
         y1 == SY!YStep(y, m, s, s1, ev)
         new == (m1.bad \ m.bad) \cup (s1.bad \ s.bad) \cup (y1.bad \ y.bad)
         cf == Cf(tid) /\ drift = 0         \* (a model is of no use once the code has done something else)
         zm == XM!SMWithin(MC(tid), XM!SMStep(MC(tid), xm, ev), ev.o)
         zs0 == XS!SSStep([mut |-> "none"], xs, xt, ev)
         zs == IF \E j \in 1..Len(ev.o) : ev.o[j].k = "td" /\ ev.o[j].s = "s"
               THEN [zs0 EXCEPT !.x = XS!SSStep([mut |-> "none"], zs0.x, zs0.tabs, [s |-> "s", e |-> "txdone", o |-> <<>>]).x]
               ELSE zs0
         nested == SelectSeq(ev.o, LAMBDA o : o.k = "req")
         \* a read outcome also carries q = number of values
         ok == CASE ~cf -> TRUE
                 [] ev.s = "m" -> NormAll(ev.o) = NormAll(zm.o) /\ (ev.e = "req" => ev.r = zm.r) /\ [j \in 1..Len(nested) |-> nested[j].r] = zm.nr
                 [] ev.s = "s" -> NormAll(ev.o) = NormAll(zs.o)
                 [] OTHER -> TRUE
     IN /\ m' = m1
        /\ s' = s1
        /\ y' = y1
        /\ xm' = IF cf /\ ev.s = "m" THEN zm.x ELSE xm
        /\ xs' = IF cf /\ ev.s = "s" THEN zs.x ELSE xs
        /\ xt' = IF cf /\ ev.s = "s" THEN zs.tabs ELSE xt
        /\ drift' = IF drift = 0 /\ ~ok THEN i + 1 ELSE drift
        /\ (new = {} \/ PrintT(<<"BAD", tid, i + 1, new>>))
        /\ (drift' = drift \/ PrintT(<<"DRIFT", tid, i + 1, [got |-> NormAll(ev.o), model |-> IF ev.s = "m" THEN NormAll(zm.o) ELSE NormAll(zs.o)]>>))

vars == <<tid, i, m, s, y, xm, xs, xt, drift>>
Spec == Init /\ [][Next]_vars
View == <<tid, i>>           \* a run is a sequence of states

Holds == \A b \in m.bad \cup s.bad \cup y.bad : b[1] # Prop
Alias == [tid |-> tid, i |-> i, bad |-> m.bad \cup s.bad \cup y.bad]
===============================================================================
