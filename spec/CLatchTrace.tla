----------------------------- MODULE CLatchTrace -----------------------------
EXTENDS CLatch, TraceLib
K == IF "k" \in DOMAIN Cfg THEN Cfg["k"] ELSE 0
TInit == TrInit /\ BInit(Cfg["n"], CASE K = 0 -> 0 [] K = 3 -> 2 [] OTHER -> 1)
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, E.a, E.v) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r) /\ Adv
  \/ Is("ev") /\ E.o = "fct" /\ Run(E.t, E.a) /\ Adv
  \/ Is("ev") /\ E.o = "reset" /\ Reset(E.t, E.a) /\ Adv
  \/ Observing /\ Stay /\ \E t \in Threads : Lin(t, E.w)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet(E.w, IF E.e = "idle" THEN E.v ELSE E.w, E.o = "end") /\ Adv /\ UNCHANGED vars
=============================================================================
