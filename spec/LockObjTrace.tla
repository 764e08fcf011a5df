----------------------------- MODULE LockObjTrace -----------------------------
EXTENDS LockObj, TraceLib
TInit == TrInit /\ BInit
TNext ==
  \/ Is("call") /\ Call(E.o, E.a, E.b, E.v) /\ Adv
  \/ Is("ev") /\ E.o = "in" /\ In(E.a, E.b, E.r, E.v) /\ Adv
  \/ Is("ev") /\ E.o = "env" /\ SetEnv(E.a, E.b) /\ Adv
  \/ Is("ret") /\ Ret(E.o, E.r, E.v, E.a) /\ Adv
  \/ Is("quiet") /\ pend.o = "" /\ Adv /\ UNCHANGED vars
=============================================================================
