----------------------------- MODULE WaitCbTrace -----------------------------
EXTENDS WaitCb, TraceLib
TInit == TrInit /\ WInit({s \in Src : (IF s = 1 THEN Cfg.k0 ELSE Cfg.k1) = 1})
IsEv(o) == Is("ev") /\ E.o = o
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, E.a, E.b, E.v, E.w) /\ Adv
  \/ Is("ret") /\ Ret(E.t, E.o, E.r) /\ Adv
  \/ IsEv("cb") /\ E.r = "" /\ CbStart(E.t, E.a, E.b) /\ Adv
  \/ IsEv("cbx") /\ CbEnd(E.t, E.b = 1) /\ Adv
  \/ IsEv("leak") /\ E.a = 0 /\ Adv /\ UNCHANGED vars
  \/ Observing /\ Stay /\ \E c \in Ctx : Lin(c, E.w)
  \/ (Is("quiet") \/ Is("idle")) /\ Quiet(IF E.e = "idle" THEN E.v ELSE E.w, E.b = 1, E.o = "end") /\ Adv /\ UNCHANGED vars
=============================================================================
