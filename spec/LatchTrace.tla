------------------------------ MODULE LatchTrace ------------------------------
EXTENDS Latch, TraceLib
TInit == TrInit /\ BInit(Cfg["n"])
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, E.a, E.b, E.v, E.w) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r) /\ Adv
  \/ Observing /\ Stay /\ \E t \in Threads : Lin(t, E.w)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet(E.w, IF E.e = "idle" THEN E.v ELSE E.w, E.b = 1, E.o = "end") /\ Adv /\ UNCHANGED vars
=============================================================================
