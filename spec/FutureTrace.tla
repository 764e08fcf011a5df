----------------------------- MODULE FutureTrace -----------------------------
EXTENDS Future, TraceLib
TInit == TrInit /\ FInit([inv |-> Cfg.inv = 1, lazy |-> Cfg.lazy = 1, void |-> Cfg.void = 1])
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, E.a, E.b, E.v, E.w) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r, E.v) /\ Adv
  \/ Is("ev") /\ E.o = "fstart" /\ Start(E.t, E.a, E.r, E.v) /\ Adv
  \/ Is("ev") /\ E.o = "fend" /\ End(E.t, E.a, E.r, E.v) /\ Adv
  \/ Is("ev") /\ E.o = "end" /\ ThreadEnd(E.t) /\ Adv
  \/ Is("ev") /\ E.o = "tlsdone" /\ TlsDone(E.t) /\ Adv
  \/ Is("ev") /\ E.o = "jump" /\ Jump(E.v, E.w) /\ Adv
  \/ Is("ev") /\ E.o = "leak" /\ E.a = 0 /\ E.b = 0 /\ Adv /\ UNCHANGED vars
  \/ Observing /\ Stay /\ ((\E t \in Threads : Lin(t, E.w)) \/ Lib)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet(E.w, IF E.e = "idle" THEN E.v ELSE E.w, E.b = 1, E.o = "end") /\ Adv /\ UNCHANGED vars
=============================================================================
