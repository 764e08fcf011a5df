---------------------------- MODULE MultiLockTrace ----------------------------
EXTENDS MultiLock, TraceLib
TInit == TrInit /\ BInit(Cfg.k = 4)
Pow2(n) == CASE n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32
Code(S) == LET f(m) == IF m \in S THEN Pow2(m) ELSE 0 IN f(1) + f(2) + f(3) + f(4) + f(5)
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, Digits(E.a)) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r) /\ (Cfg.k >= 2 => Code(Holds(E.t)) = E.v) /\ Adv
  \/ Observing /\ Stay /\ \E t \in Threads : Lin(t)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet /\ Adv
=============================================================================
