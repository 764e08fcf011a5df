----------------------------- MODULE QueueTrace -----------------------------
EXTENDS Queue, TraceLib
Kind(k) == CASE k <= 5 -> "fifo" [] k <= 9 -> "bounded" [] k <= 10 -> "prio" [] OTHER -> "timed"
TInit == TrInit /\ QInit(Kind(Cfg.k), Cfg.cap, Cfg.k >= 12)
Prev == IF l = 1 \/ cfg.k # "timed" THEN E.w ELSE Traces[tr].ev[l - 1].w
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, E.a, E.b, E.v, E.w) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r, E.v) /\ Adv
  \/ Is("ev") /\ E.o = "jump" /\ Jump(E.v, E.w) /\ Adv
  \/ Is("ev") /\ E.o = "leak" /\ E.a = 0 /\ Adv /\ UNCHANGED vars
  \* (time may have passed since the previous event)
  \/ Observing /\ Stay /\ \E n \in {Prev, E.w} : \E t \in Threads : Lin(t, n)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet(E.w, IF E.e = "idle" THEN E.v ELSE E.w, E.b = 1, E.o = "end") /\ Adv /\ UNCHANGED vars
=============================================================================
