----------------------------- MODULE ThreadTrace -----------------------------
EXTENDS Thread, TraceLib
\* operations that only concern what belongs to their caller: explained when they return
Own == {"self", "ie", "dis", "res", "pop", "atexit", "tset", "tget", "trel", "detach", "joinable", "native", "getid", "swap", "move", "dtor"}
TInit == TrInit /\ BInit(Cfg.roots, Cfg.term = 1)
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, E.a, E.b, E.v, E.w) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r, E.v) /\ Adv
  \/ Is("ev") /\ E.o = "start" /\ Start(E.t) /\ Adv
  \/ Is("ev") /\ E.o = "end" /\ End(E.t) /\ Adv
  \/ Is("ev") /\ E.o = "cb" /\ Cb(E.t, E.a) /\ Adv
  \/ Is("ev") /\ E.o = "clean" /\ Clean(E.t, E.a, E.b) /\ Adv
  \/ Is("ev") /\ E.o = "jump" /\ Jump(E.v, E.w) /\ Adv
  \/ Is("ev") /\ E.o = "leak" /\ E.a = 0 /\ E.b = 0 /\ Adv /\ UNCHANGED vars
  \/ Is("fault") /\ E.o = "terminate" /\ Terminated(E.t) /\ Adv /\ UNCHANGED vars
  \/ Observing /\ Stay /\ \E t \in Threads : (E.t = t \/ pend[t].o \notin Own) /\ Lin(t, E.w)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet(E.w, IF E.e = "idle" THEN E.v ELSE E.w, E.b = 1, E.o = "end") /\ Adv /\ UNCHANGED vars
=============================================================================
