-------------------------------- MODULE Latch --------------------------------
(* A counter that lets waiters through when it reaches zero.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads
VARIABLES count, pend
vars == <<count, pend>>
Slack == 100000
Idle == [st |-> "idle", o |-> "", a |-> 0, b |-> 0, dl |-> 0, t0 |-> 0, r |-> ""]
BInit(n) == count = n /\ pend = [t \in Threads |-> Idle]
\* a = 1: timed; b: 0 internal clock, 1 another clock, 2 relative
Call(t, o, a, b, dl, now) == /\ pend[t].st = "idle"
                             /\ pend' = [pend EXCEPT ![t] = [st |-> "call", o |-> o, a |-> a, b |-> b, dl |-> dl, t0 |-> now, r |-> ""]]
                             /\ UNCHANGED count
Fin(t, r, f) == [f EXCEPT ![t].st = "done", ![t].r = r]
Free(f) == [u \in Threads |-> IF f[u].st = "wait" THEN [f[u] EXCEPT !.st = "done", !.r = "ok"] ELSE f[u]]
P(t, o) == pend[t].st = "call" /\ pend[t].o = o
Wait(t) == /\ P(t, "wait")
           /\ pend' = IF count = 0 THEN Fin(t, "ok", pend) ELSE [pend EXCEPT ![t].st = "wait"]
           /\ UNCHANGED count
Timeout(t, now) == /\ pend[t].st = "wait" /\ pend[t].o = "wait" /\ pend[t].a = 1 /\ now >= pend[t].dl
                   /\ pend' = Fin(t, "timeout", pend) /\ UNCHANGED count
Try(t) == P(t, "try") /\ pend' = Fin(t, IF count = 0 THEN "true" ELSE "false", pend) /\ UNCHANGED count
Down(f) == count' = count - 1 /\ pend' = IF count = 1 THEN Free(f) ELSE f
CountDown(t) == P(t, "cd") /\ count > 0 /\ Down(Fin(t, "ok", pend))
TryCountDown(t) == /\ P(t, "tcd")
                   /\ IF count = 0 THEN pend' = Fin(t, "true", pend) /\ UNCHANGED count
                      ELSE Down(Fin(t, IF count = 1 THEN "true" ELSE "false", pend))
CountDownWait(t) == P(t, "cdw") /\ count > 0 /\ Down([pend EXCEPT ![t].st = "wait"])
\* threads already waiting go on waiting
Reset(t) == P(t, "reset") /\ count' = pend[t].a /\ pend' = Fin(t, "ok", pend)
Lin(t, now) == Wait(t) \/ Timeout(t, now) \/ Try(t) \/ CountDown(t) \/ TryCountDown(t) \/ CountDownWait(t) \/ Reset(t)
Ret(t, o, r) == pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED count
Max(a, b) == IF a > b THEN a ELSE b
InTime(p, now, lim, early) == IF p.b = 1 THEN early \/ lim <= Max(p.dl, p.t0) + Slack
                              ELSE (now < p.dl /\ lim <= p.dl) \/ (early /\ p.b = 2)
Quiet(now, lim, early, end) ==
  \A t \in Threads : /\ pend[t].st \in {"idle", "wait"}
                     /\ (pend[t].st = "wait" /\ pend[t].a = 1 /\ pend[t].o = "wait") => (~end /\ InTime(pend[t], now, lim, early))
=============================================================================
