----------------------------- MODULE CondVarTrace -----------------------------
EXTENDS CondVar, TraceLib
TInit == TrInit /\ BInit
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, E.a, E.b, E.v, E.w) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r) /\ Adv
  \/ Is("ev") /\ E.o = "set" /\ Set(E.t, E.a, E.b) /\ Adv
  \/ Is("ev") /\ E.o = "jump" /\ Jump(E.v, E.w) /\ Adv
  \/ Is("ev") /\ E.o = "tlsdone" /\ TlsDone(E.t) /\ Adv
  \/ Observing /\ Stay /\ \E t \in Threads : Lin(t, E.w)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet(E.w, IF E.e = "idle" THEN E.v ELSE E.w, E.b = 1, E.o = "end") /\ Adv /\ UNCHANGED vars
=============================================================================
