---------------------------- MODULE ExecutorTrace ----------------------------
EXTENDS Executor, TraceLib
Kind(k) == CASE k = 0 -> "pool" [] k = 1 -> "loop" [] k = 2 -> "thread" [] k = 3 -> "inline" [] k \in {4, 5} -> "serial" [] k = 8 -> "timedon" [] OTHER -> "timed"
Workers == CASE Cfg.k \in {4, 5} -> 20 [] Cfg.k \in {7, 9, 10} -> 1 [] OTHER -> Cfg.n
TInit == TrInit /\ XInit(Kind(Cfg.k), Workers, Cfg.e > 0, Cfg.k >= 10)
Prev == IF l = 1 \/ ~Timed THEN E.w ELSE Traces[tr].ev[l - 1].w
Helpers == {t \in Ctx : pend[t].st = "call" /\ pend[t].o \in Execs}
IsEv(o) == Is("ev") /\ E.o = o
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, E.a, E.b, E.v, E.w) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r) /\ Adv
  \/ IsEv("start") /\ Start(E.t, E.a) /\ Adv
  \/ IsEv("end") /\ End(E.t, E.a, E.b = 1) /\ Adv
  \/ IsEv("entry") /\ Entry /\ Adv
  \/ IsEv("open") /\ Open /\ Adv
  \/ IsEv("jump") /\ Jump(E.v, E.w) /\ Adv
  \/ IsEv("nothreads") /\ Cfg.fc \in 1..Cfg.n /\ Adv /\ UNCHANGED vars
  \/ IsEv("leak") /\ E.a = 0 /\ Adv /\ UNCHANGED vars
  \* (time may have passed since the previous event)
  \/ Observing /\ Stay /\ \E n \in {Prev, E.w} :
       \/ \E t \in {x \in Ctx : pend[x].st = "call"} : Lin(t, n)
       \/ IsEv("start") /\ Take(E.t, E.a, n)
       \/ (cfg.k = "timed" \/ Helpers # {}) /\ \E h \in Helpers \cup {0}, i \in Queue : Take(h, i, n)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet(E.w, IF E.e = "idle" THEN E.v ELSE E.w, E.b = 1, E.o = "end") /\ Adv /\ UNCHANGED vars
=============================================================================
