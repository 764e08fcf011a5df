-------------------------------- MODULE CLatch --------------------------------
(* completion_latch: reaching zero lets the waiters through, then the function  *)
(* runs once, called by the thread that counted down last.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads
VARIABLES count, fct, last, pend
vars == <<count, fct, last, pend>>
Idle == [st |-> "idle", o |-> "", a |-> 0, dl |-> 0, r |-> ""]
\* fct: which function is installed (0 none, 1, 2)
BInit(n, k) == count = n /\ fct = k /\ last = 0 /\ pend = [t \in Threads |-> Idle]
Call(t, o, a, dl) == /\ pend[t].st = "idle" /\ pend' = [pend EXCEPT ![t] = [st |-> "call", o |-> o, a |-> a, dl |-> dl, r |-> ""]]
                     /\ UNCHANGED <<count, fct, last>>
Fin(t, r, f) == [f EXCEPT ![t].st = "done", ![t].r = r]
P(t, o) == pend[t].st = "call" /\ pend[t].o = o
Open == last = 0
Wait(t) == /\ P(t, "wait") /\ Open
           /\ pend' = IF count = 0 THEN Fin(t, "ok", pend) ELSE [pend EXCEPT ![t].st = "wait"]
           /\ UNCHANGED <<count, fct, last>>
Try(t) == P(t, "try") /\ pend' = Fin(t, IF count = 0 THEN "true" ELSE "false", pend) /\ UNCHANGED <<count, fct, last>>
Timeout(t, now) == /\ pend[t].st = "wait" /\ pend[t].a = 1 /\ now >= pend[t].dl
                   /\ pend' = Fin(t, "timeout", pend) /\ UNCHANGED <<count, fct, last>>
Down(t) == /\ pend[t].st = "call" /\ pend[t].o \in {"cd", "cdw"} /\ count > 0 /\ Open
           /\ count' = count - 1 /\ UNCHANGED fct
           /\ IF count > 1
              THEN pend' = (IF pend[t].o = "cd" THEN Fin(t, "ok", pend) ELSE [pend EXCEPT ![t].st = "wait"]) /\ UNCHANGED last
              ELSE last' = t /\ pend' = [u \in Threads |-> IF u = t THEN [pend[u] EXCEPT !.st = "last"]
                                                           ELSE IF pend[u].st = "wait" THEN [pend[u] EXCEPT !.st = "done", !.r = "ok"] ELSE pend[u]]
NoFct(t) == last = t /\ pend[t].st = "last" /\ fct = 0 /\ last' = 0 /\ pend' = Fin(t, "ok", pend) /\ UNCHANGED <<count, fct>>
Run(t, k) == last = t /\ pend[t].st = "last" /\ fct = k /\ last' = 0 /\ pend' = [pend EXCEPT ![t].st = "fct"] /\ UNCHANGED <<count, fct>>
Reset(t, n) == pend[t].st = "fct" /\ count' = n /\ UNCHANGED <<fct, last, pend>>
Lin(t, now) == Wait(t) \/ Try(t) \/ Timeout(t, now) \/ Down(t) \/ NoFct(t)
Ret(t, o, r) == /\ pend[t].o = o
                /\ \/ pend[t].st = "done" /\ r = pend[t].r
                   \/ pend[t].st = "fct" /\ r = "ok"
                /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<count, fct, last>>
Quiet(now, lim, end) == \A t \in Threads : /\ pend[t].st \in {"idle", "wait"}
                                           /\ (pend[t].st = "wait" /\ pend[t].a = 1) => (~end /\ now < pend[t].dl /\ lim <= pend[t].dl)
=============================================================================
