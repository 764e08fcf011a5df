----------------------------- MODULE SyncValTrace -----------------------------
EXTENDS SyncVal, TraceLib
TInit == TrInit /\ SInit(Cfg["m"] = 1)
\* call: a = cells, b = argument, v = handle + 10 * variant + 1000 * throwing + 10000 * form
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, Digits(E.a), E.b, E.v % 10, (E.v \div 10) % 10, (E.v \div 1000) % 10 = 1) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r, E.v) /\ Adv
  \/ Observing /\ Stay /\ \E t \in Threads : Lin(t)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet /\ Adv
=============================================================================
