-------------------------------- MODULE Mutex --------------------------------
(* mutex, timed_mutex, recursive_mutex, recursive_timed_mutex.               *)
(* Every operation is a call, one linearization step and a return.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Mutexes
VARIABLES owner, cnt, pend, rec
vars == <<owner, cnt, pend, rec>>

Idle == [st |-> "idle", o |-> "", m |-> 0, dl |-> 0, rel |-> 0, r |-> ""]
BInit(rc) == /\ owner = [m \in Mutexes |-> 0] /\ cnt = [m \in Mutexes |-> 0]
             /\ pend = [t \in Threads |-> Idle] /\ rec = rc

Avail(t, m) == cnt[m] = 0 \/ (rec /\ owner[m] = t)

Call(t, o, m, dl, rel) ==
  /\ pend[t].st = "idle"
  /\ pend' = [pend EXCEPT ![t] = [st |-> "call", o |-> o, m |-> m, dl |-> dl, rel |-> rel, r |-> ""]]
  /\ UNCHANGED <<owner, cnt, rec>>

Fin(t, r) == pend' = [pend EXCEPT ![t].st = "done", ![t].r = r]

Acquire(t, m) == /\ Avail(t, m)
                 /\ owner' = [owner EXCEPT ![m] = t] /\ cnt' = [cnt EXCEPT ![m] = @ + 1]

Take(t) == /\ pend[t].st = "call" /\ pend[t].o \in {"lock", "try", "timed"}
           /\ Acquire(t, pend[t].m) /\ Fin(t, "true") /\ UNCHANGED rec
\* a failure needs the mutex to be unavailable, and a timed attempt does not give up before its deadline
Refuse(t, now) == /\ pend[t].st = "call" /\ pend[t].o \in {"try", "timed"}
                  /\ ~Avail(t, pend[t].m)
                  /\ pend[t].o = "timed" => now >= pend[t].dl
                  /\ Fin(t, "false") /\ UNCHANGED <<owner, cnt, rec>>
Release(t) == /\ pend[t].st = "call" /\ pend[t].o = "unlock"
              /\ LET m == pend[t].m IN
                 /\ owner[m] = t /\ cnt[m] > 0
                 /\ cnt' = [cnt EXCEPT ![m] = @ - 1]
                 /\ owner' = [owner EXCEPT ![m] = IF cnt[m] = 1 THEN 0 ELSE t]
              /\ Fin(t, "ok") /\ UNCHANGED rec
Lin(t, now) == Take(t) \/ Refuse(t, now) \/ Release(t)
CanLin(t, now) == pend[t].st = "call" /\ \/ pend[t].o \in {"unlock", "try"}
                                         \/ Avail(t, pend[t].m)
                                         \/ pend[t].o = "timed" /\ now >= pend[t].dl
Ret(t, o, r) == /\ pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r
                /\ pend' = [pend EXCEPT ![t] = Idle]
                /\ UNCHANGED <<owner, cnt, rec>>
\* nothing can happen without time passing: no operation that could complete is still pending.
\* early: time has advanced during the run while threads were runnable, so that the deadline of an
\* operation with a relative timeout is only known as a lower bound
Quiet(now, lim, early, end) ==
  \A t \in Threads : /\ pend[t].st # "done"
                     /\ pend[t].st = "call" =>
                          /\ pend[t].o \in {"lock", "timed"}
                          /\ ~Avail(t, pend[t].m)
                          /\ pend[t].o = "timed" => ~end /\ ((now < pend[t].dl /\ lim <= pend[t].dl) \/ (early /\ pend[t].rel = 1))
=============================================================================
