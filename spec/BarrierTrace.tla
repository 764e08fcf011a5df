----------------------------- MODULE BarrierTrace -----------------------------
EXTENDS Barrier, TraceLib
Get(k, d) == IF k \in DOMAIN Cfg THEN Cfg[k] ELSE d
TInit == TrInit /\ BInit(Get("k", 0), Get("n", 2), Get("n2", Get("n", 2)))
TNext ==
  \/ Is("call") /\ E.o = "w" /\ Call(E.t, E.a) /\ Adv
  \/ Is("call") /\ E.o = "zero" /\ Adv /\ UNCHANGED vars
  \/ Is("ret") /\ E.o = "zero" /\ E.r = "thrown" /\ Adv /\ UNCHANGED vars
  \/ Is("ev") /\ E.o = "fct" /\ FctBegin(E.t) /\ Adv
  \/ Is("ev") /\ E.o = "fend" /\ FctEnd(E.t) /\ Adv
  \/ Is("ret") /\ E.o = "w" /\ Ret(E.t, E.r) /\ Adv
  \/ Observing /\ Stay /\ \E t \in Threads : Lin(t)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet /\ (E.o = "end" => End) /\ Adv /\ UNCHANGED vars
=============================================================================
