------------------------------ MODULE OnceTrace ------------------------------
EXTENDS Once, TraceLib
TInit == TrInit /\ BInit
TNext ==
  \/ Is("call") /\ Call(E.t, E.a) /\ Adv
  \/ Is("ev") /\ E.o = "begin" /\ Begin(E.t, E.a) /\ Adv
  \/ Is("ev") /\ E.o = "end" /\ Leave(E.t, E.a, "ok") /\ Adv
  \/ Is("ev") /\ E.o = "fail" /\ Leave(E.t, E.a, "thrown") /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.a, E.r) /\ Adv
  \/ Observing /\ Stay /\ \E f \in Flags : Settle(f)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet /\ (E.o = "end" => End) /\ Adv /\ UNCHANGED vars
=============================================================================
