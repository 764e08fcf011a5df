----------------------------- MODULE RegionTrace -----------------------------
EXTENDS Region, TraceLib
TInit == TrInit /\ RInit
IsEv(o) == Is("ev") /\ E.o = o
TNext ==
  \/ Is("call") /\ Adv /\ (CASE E.o = "reg" -> Enter(E.t) [] E.o = "run" -> CallRun(E.t, E.a) [] E.o = "wait" -> CallWait(E.t) [] E.o = "end" -> Leave(E.t, E.v))
  \/ Is("ret") /\ Ret(E.t, E.o, E.r, E.v) /\ Adv
  \/ IsEv("start") /\ Start(E.a) /\ Adv
  \/ IsEv("end") /\ End(E.a, E.b = 1, E.v) /\ Adv
  \/ IsEv("leak") /\ E.a = 0 /\ Adv /\ UNCHANGED vars
  \/ Observing /\ Stay /\ ((\E c \in Ctx : Lin(c)) \/ (\E k \in Tasks : Settle(k)))
  \/ Is("quiet") /\ Quiet(IF Cfg.k = 0 THEN Cfg.n ELSE 100, E.o = "end") /\ Adv /\ UNCHANGED vars
  \/ Is("idle") /\ Quiet(IF Cfg.k = 0 THEN Cfg.n ELSE 100, FALSE) /\ Adv /\ UNCHANGED vars
=============================================================================
